// The C++ library's parallel algorithms on simulated threads. build.py puts this
// in the place of libstdc++'s TBB backend in a copy of its pstl headers.
#ifndef _PSTL_PARALLEL_BACKEND_TBB_H
#define _PSTL_PARALLEL_BACKEND_TBB_H
#include <algorithm>
#include <cstddef>
#include <functional>
#include <memory>
#include <mutex>
#include <numeric>
#include <utility>
#include <vector>

namespace sim {
void parallelChunks(std::size_t n, const std::function<void(std::size_t, std::size_t)>& body);
void parallelPair(const std::function<void()>& a, const std::function<void()>& b);
}

namespace __pstl {
namespace __tbb_backend {

template <typename _Tp>
class __buffer {
  std::allocator<_Tp> __allocator_;
  const std::size_t __buf_size_;
  _Tp* __ptr_;
  __buffer(const __buffer&) = delete;
  void operator=(const __buffer&) = delete;

 public:
  __buffer(std::size_t __n) : __buf_size_(__n), __ptr_(__allocator_.allocate(__n)) {}
  operator bool() const { return __ptr_ != nullptr; }
  _Tp* get() const { return __ptr_; }
  ~__buffer() { __allocator_.deallocate(__ptr_, __buf_size_); }
};

inline void __cancel_execution() {}

template <class _ExecutionPolicy, class _Index, class _Fp>
void __parallel_for(_ExecutionPolicy&&, _Index __first, _Index __last, _Fp __f) {
  sim::parallelChunks(__last - __first, [&](std::size_t __a, std::size_t __b) { __f(__first + __a, __first + __b); });
}

// Partial results are combined in the order of the elements, as the standard asks.
template <class _Value, class _Index, class _Part, class _Reduction>
_Value __sim_reduce(_Index __first, _Index __last, const _Value& __identity, const _Part& __part, const _Reduction& __reduction) {
  std::size_t __n = __last - __first;
  if (__n == 0) return __identity;
  std::mutex __m;
  std::vector<std::pair<std::size_t, _Value>> __parts;
  sim::parallelChunks(__n, [&](std::size_t __a, std::size_t __b) {
    _Value __v = __part(__first + __a, __first + __b);
    std::lock_guard<std::mutex> __g(__m);
    __parts.emplace_back(__a, std::move(__v));
  });
  std::sort(__parts.begin(), __parts.end(), [](const auto& __x, const auto& __y) { return __x.first < __y.first; });
  _Value __r = __parts[0].second;
  for (std::size_t __i = 1; __i < __parts.size(); ++__i) __r = __reduction(__r, __parts[__i].second);
  return __r;
}

template <class _ExecutionPolicy, class _Value, class _Index, typename _RealBody, typename _Reduction>
_Value __parallel_reduce(_ExecutionPolicy&&, _Index __first, _Index __last, const _Value& __identity,
    const _RealBody& __real_body, const _Reduction& __reduction) {
  return __sim_reduce(__first, __last, __identity,
    [&](_Index __a, _Index __b) { return __real_body(__a, __b, __identity); }, __reduction);
}

template <class _ExecutionPolicy, class _Index, class _UnaryOp, class _Tp, class _BinaryOp, class _Reduce>
_Tp __parallel_transform_reduce(_ExecutionPolicy&&, _Index __first, _Index __last, _UnaryOp __u, _Tp __init,
    _BinaryOp __combine, _Reduce __brick) {
  if (__first == __last) return __init;
  // each part begins with its own first element
  _Tp __r = __sim_reduce(__first, __last, __init, [&](_Index __a, _Index __b) {
    _Tp __v = __u(__a);
    return __a + 1 == __b ? __v : __brick(__a + 1, __b, __v);
  }, __combine);
  return __combine(__init, __r);
}

template <class _ExecutionPolicy, typename _Index, typename _Tp, typename _Rp, typename _Cp, typename _Sp, typename _Ap>
void __parallel_strict_scan(_ExecutionPolicy&&, _Index __n, _Tp __initial, _Rp __reduce, _Cp __combine, _Sp __scan, _Ap __apex) {
  _Tp __sum = __initial;
  if (__n) __sum = __combine(__sum, __reduce(_Index(0), __n));
  __apex(__sum);
  if (__n) __scan(_Index(0), __n, __initial);
}

template <class _ExecutionPolicy, class _Index, class _UnaryOp, class _Tp, class _BinaryOp, class _Reduce, class _Scan>
_Tp __parallel_transform_scan(_ExecutionPolicy&&, _Index __n, _UnaryOp, _Tp __init, _BinaryOp, _Reduce, _Scan __scan) {
  return __scan(_Index(0), __n, __init);
}

template <class _ExecutionPolicy, typename _It, typename _Compare, typename _LeafSort>
void __parallel_stable_sort(_ExecutionPolicy&&, _It __first, _It __last, _Compare __comp, _LeafSort __leaf_sort, std::size_t = 0) {
  __leaf_sort(__first, __last, __comp);
}

template <class _ExecutionPolicy, typename _I1, typename _I2, typename _I3, typename _Compare, typename _LeafMerge>
void __parallel_merge(_ExecutionPolicy&&, _I1 __f1, _I1 __l1, _I2 __f2, _I2 __l2, _I3 __out, _Compare __comp, _LeafMerge __leaf_merge) {
  __leaf_merge(__f1, __l1, __f2, __l2, __out, __comp);
}

template <class _ExecutionPolicy, typename _F1, typename _F2>
void __parallel_invoke(_ExecutionPolicy&&, _F1&& __f1, _F2&& __f2) {
  sim::parallelPair([&] { std::forward<_F1>(__f1)(); }, [&] { std::forward<_F2>(__f2)(); });
}

}  // namespace __tbb_backend
}  // namespace __pstl
#endif
