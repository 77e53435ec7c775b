// A stand-in for the header the library looks for (github.com/eyalz800/zpp_throwing,
// which is not here), with what the library uses of it: a coroutine type which
// holds a value or an error code, awaited to get the one or pass on the other.
//
// The body of a function starts when it is called; with THROWING_LAZY, when it
// is awaited.
#ifndef ZPP_THROWING_H
#define ZPP_THROWING_H

#include <coroutine>
#include <cstdlib>
#include <optional>
#include <system_error>
#include <type_traits>
#include <utility>

namespace zpp
{
struct void_t
{
};
inline constexpr void_t void_v{};

template <typename Type>
class throwing;

namespace throwing_detail
{
inline int alive = 0; // coroutines which were not destroyed
struct basic_promise
{
    std::errc error{};
    bool done = false;
    basic_promise() { ++alive; }
    ~basic_promise() { --alive; }
    auto initial_suspend() noexcept
    {
#ifdef THROWING_LAZY
        return std::suspend_always{};
#else
        return std::suspend_never{};
#endif
    }
    std::suspend_always final_suspend() noexcept { return {}; }
    std::suspend_always yield_value(std::errc code)
    {
        error = code;
        done = true;
        return {};
    }
    void unhandled_exception() { throw; }
};
template <typename Type>
struct promise : basic_promise
{
    std::optional<Type> value;
    throwing<Type> get_return_object();
    template <typename Other>
    void return_value(Other && other)
    {
        value.emplace(std::forward<Other>(other));
        done = true;
    }
};
template <>
struct promise<void> : basic_promise
{
    throwing<void> get_return_object();
    void return_void() { done = true; }
};
} // namespace throwing_detail

template <typename Type>
class [[nodiscard]] throwing
{
public:
    using promise_type = throwing_detail::promise<Type>;
    using stored = std::conditional_t<std::is_void_v<Type>, void_t, Type>;

    constexpr throwing(std::errc code) : m_error(code)
    {
    }
    constexpr throwing(void_t) requires std::is_void_v<Type> : m_value(void_t{})
    {
    }
    template <typename Other>
    requires(!std::is_void_v<Type> && std::constructible_from<stored, Other> && !std::same_as<std::remove_cvref_t<Other>, throwing> &&
             !std::same_as<std::remove_cvref_t<Other>, std::errc>)
    constexpr throwing(Other && value) : m_value(std::forward<Other>(value))
    {
    }
    constexpr throwing(throwing && other) noexcept :
        m_error(other.m_error),
        m_value(std::move(other.m_value)),
        m_handle(std::exchange(other.m_handle, nullptr))
    {
    }
    explicit throwing(std::coroutine_handle<promise_type> handle) : m_handle(handle)
    {
    }
    constexpr ~throwing()
    {
        if (m_handle) {
            m_handle.destroy();
        }
    }

    bool await_ready()
    {
        run();
        return error() == std::errc{};
    }
    template <typename Promise>
    void await_suspend(std::coroutine_handle<Promise> outer)
    {
        outer.promise().error = error();
        outer.promise().done = true;
    }
    Type await_resume()
    {
        if constexpr (!std::is_void_v<Type>) {
            return m_handle ? std::move(*m_handle.promise().value) : std::move(*m_value);
        }
    }
    std::errc error() const
    {
        return m_handle ? m_handle.promise().error : m_error;
    }
    void run()
    {
        if (m_handle && !m_handle.promise().done) {
            m_handle.resume();
        }
    }

private:
    std::errc m_error{};
    std::optional<stored> m_value{};
    std::coroutine_handle<promise_type> m_handle{};
};

template <typename Type>
throwing<Type> throwing_detail::promise<Type>::get_return_object()
{
    return throwing<Type>(std::coroutine_handle<promise<Type>>::from_promise(*this));
}
inline throwing<void> throwing_detail::promise<void>::get_return_object()
{
    return throwing<void>(std::coroutine_handle<promise<void>>::from_promise(*this));
}

// What a coroutine comes to: the code it failed with, or none.
template <typename Function>
std::errc outcome_of(Function && function)
{
    auto result = function();
    result.run();
    return result.error();
}
} // namespace zpp

#endif
