// Fault seams. All are off unless armed; none touches the shipped library.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>

namespace sim {

// ---- memory: operator new called from library (or harness) code in this
// executable; allocations made inside third-party shared libraries never fail.
void allocCountStart();              // count allocations from here
uint64_t allocCountStop();
// The k-th allocation from now (1 = the next) and the `n-1` following ones
// throw std::bad_alloc.
void allocArm(uint64_t k, uint64_t n = 1);
uint64_t allocDisarm();              // returns how many failed
struct AllocPause { AllocPause(); ~AllocPause(); };  // harness bookkeeping

// ---- geometry engine (GEOS entry points used by OGR)
void geosCountStart();
uint64_t geosCountStop();
void geosArm(uint64_t k, uint64_t n = 1);
uint64_t geosDisarm();
const char* geosLastFailed();

// ---- clock and entropy
void clockSet(int64_t unix_seconds);
void clockAdvance(double seconds);
double clockNow();
void entropySeed(uint64_t s);

// ---- files under scratchDir()
struct IoPlan {
  int64_t fail_read_at {-1};    // EIO once this many bytes of the file were read
  int64_t fail_write_at {-1};   // error once this many bytes were written
  int write_errno {28};         // ENOSPC
  int open_errno {0};           // fail the open with this errno
  int fail_close {0};           // close/fclose reports EIO
  int rename_errno {0};         // fail renames and links with this errno
  int fail_sync {0};            // fsync/fdatasync report EIO
  uint32_t max_chunk {0};       // short transfers of at most this many bytes
  uint32_t eintr_every {0};     // every n-th transfer is interrupted first
  int64_t crash_write_at {-1};  // the process dies once this many bytes were written
};
void ioArm(const IoPlan& p);
void ioDisarm();
struct IoStats { uint64_t opens, reads, writes, short_io, eintr, eio, enospc, open_failed, close_failed, rename_failed, sync_failed, bytes; };
IoStats ioStats();

// ---- coordinate-system services
struct CrsPlan {
  int64_t fail_import {0};      // the k-th lookup of a coordinate system fails
  int64_t fail_create {0};      // the k-th creation of a transformation fails
  int64_t fail_point {-1};      // points after the first k cannot be converted
  int64_t fail_points {1};      // ... this many of them
};
void crsArm(const CrsPlan& p);
void crsDisarm();
struct CrsStats { uint64_t imports, created, points, import_failed, create_failed, point_failed; };
CrsStats crsStats();

}  // namespace sim
