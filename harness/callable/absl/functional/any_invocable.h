// Stand-in for a recent Abseil's AnyInvocable (the sandbox has an older one
// without the Rust query operation): the same representation and protocol.
#pragma once
#include <cstddef>
#include <type_traits>
#include <utility>
#include <exception>
namespace absl {
template <class Sig>
class AnyInvocable;
namespace internal_any_invocable {
template <class T>
using ForwardedParameterType = std::conditional_t<std::is_scalar_v<T> || std::is_reference_v<T>, T, T&&>;
enum class FunctionToCall : unsigned char { dispose, relocate_from_to, relocate_from_to_and_query_rust };
union TypeErasedState {
  struct { void* target; std::size_t size; } remote;
  alignas(void*) char storage[sizeof(void*) * 2];
};
using ManagerType = void(FunctionToCall, TypeErasedState*, TypeErasedState*) noexcept;
inline void EmptyManager(FunctionToCall, TypeErasedState*, TypeErasedState*) noexcept {}
}  // namespace internal_any_invocable

#define VT_ANY(qual)                                                                               \
  template <class R, class... P>                                                                   \
  class AnyInvocable<R(P...) qual> {                                                               \
   public:                                                                                         \
    using State = internal_any_invocable::TypeErasedState;                                         \
    using Manager = internal_any_invocable::ManagerType;                                           \
    using Invoker = R(State*, internal_any_invocable::ForwardedParameterType<P>...);               \
    AnyInvocable(State* s, Manager* m, Invoker* i) : manager(m), invoker(i) {                      \
      m(internal_any_invocable::FunctionToCall::relocate_from_to, s, &state);                      \
    }                                                                                              \
    AnyInvocable(AnyInvocable&& o) noexcept : manager(o.manager), invoker(o.invoker) {             \
      o.manager(internal_any_invocable::FunctionToCall::relocate_from_to, &o.state, &state);       \
      o.manager = internal_any_invocable::EmptyManager;                                            \
      o.invoker = nullptr;                                                                         \
    }                                                                                              \
    ~AnyInvocable() { manager(internal_any_invocable::FunctionToCall::dispose, &state, &state); }  \
    explicit operator bool() const { return invoker != nullptr; }                                  \
    R operator()(P... args) qual {                                                                 \
      using Q = int qual;                                                                          \
      Invoker* i = invoker;                                                                        \
      if constexpr (std::is_rvalue_reference_v<Q>) {                                               \
        manager = internal_any_invocable::EmptyManager;                                            \
        invoker = nullptr;                                                                         \
      }                                                                                            \
      return i(const_cast<State*>(&state),                                                         \
               std::forward<internal_any_invocable::ForwardedParameterType<P>>(args)...);          \
    }                                                                                              \
    mutable State state;                                                                                   \
    mutable Manager* manager;                                                                              \
    mutable Invoker* invoker;                                                                              \
  };
VT_ANY(const)
VT_ANY()
VT_ANY(&&)
#undef VT_ANY
}  // namespace absl
