// Stand-in for the one piece of Pinocchio the barrier activations use.
#pragma once
namespace pinocchio {
namespace internal {
enum ComparisonOperators { LT, LE, EQ, GE, GT };
template <typename L, typename R, typename T, typename E>
T if_then_else(ComparisonOperators op, const L& l, const R& r, const T& t, const E& e) {
  switch (op) {
    case LT: return l < r ? t : T(e);
    case LE: return l <= r ? t : T(e);
    case EQ: return l == r ? t : T(e);
    case GE: return l >= r ? t : T(e);
    default: return l > r ? t : T(e);
  }
}
}  // namespace internal
}  // namespace pinocchio
