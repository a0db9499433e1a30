// Stand-in for the subset of EnTT 3.15 that edyn needs.
//
// EnTT is not installed in this sandbox.  This header re-implements, from
// EnTT's documented behaviour, the classes edyn uses (registry, storage,
// sparse_set, view, sigh/sink/delegate, any, meta) so that the whole of edyn
// can be compiled and simulated.  It is a STUB in the sense of DESIGN.md: the
// behaviour of the third party library itself is not verified.
#ifndef VERIF_MINI_ENTT_HPP
#define VERIF_MINI_ENTT_HPP

#include <algorithm>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstdio>
#include <functional>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <array>
#include <deque>

// Contract checks (EnTT asserts in debug builds).  A failed contract is an
// observable error of the caller: abort with a recognisable message.
extern "C" void sim_contract_failure(const char *, const char *, const char *) __attribute__((weak));
namespace entt::internal {
[[noreturn]] inline void contract_failure(const char *expr, const char *msg, const char *fn) {
    if (sim_contract_failure) sim_contract_failure(expr, msg, fn);
    std::fprintf(stderr, "ENTT-CONTRACT %s (%s) in %s\n", msg, expr, fn);
    std::abort();
}
}
#define ENTT_ASSERT(cond, msg) ((cond) ? (void)0 : ::entt::internal::contract_failure(#cond, msg, __PRETTY_FUNCTION__))

namespace entt {

using id_type = std::uint32_t;

// ---------------------------------------------------------------- utility --
struct identity {
    using is_transparent = void;
    template<typename T> constexpr T &&operator()(T &&value) const noexcept { return std::forward<T>(value); }
};

template<typename... T> struct type_list { using type = type_list; static constexpr auto size = sizeof...(T); };
template<std::size_t I, typename L> struct type_list_element;
template<std::size_t I, typename F, typename... O>
struct type_list_element<I, type_list<F, O...>> : type_list_element<I - 1, type_list<O...>> {};
template<typename F, typename... O>
struct type_list_element<0, type_list<F, O...>> { using type = F; };
template<std::size_t I, typename L> using type_list_element_t = typename type_list_element<I, L>::type;

template<typename To, typename From> struct constness_as { using type = std::remove_const_t<To>; };
template<typename To, typename From> struct constness_as<To, const From> { using type = const To; };
template<typename To, typename From> using constness_as_t = typename constness_as<To, From>::type;

template<typename T> inline constexpr bool is_ebco_eligible_v = std::is_empty_v<T> && !std::is_final_v<T>;

struct in_place_t_ {};
template<auto> struct connect_arg_holder {};
template<auto Candidate> struct connect_arg_t { explicit connect_arg_t() = default; };
template<auto Candidate> inline constexpr connect_arg_t<Candidate> connect_arg{};

// ------------------------------------------------------------- type info --
namespace internal {
constexpr id_type fnv1a(std::string_view s) noexcept {
    std::uint32_t v = 2166136261u;
    for (char c : s) v = (v ^ static_cast<std::uint8_t>(c)) * 16777619u;
    return v;
}
template<typename T> constexpr std::string_view pretty_name() noexcept { return std::string_view{__PRETTY_FUNCTION__}; }
inline id_type next_type_index() noexcept { static id_type v = 0; return v++; }
}

template<typename T> struct type_hash {
    static constexpr id_type value() noexcept { return internal::fnv1a(internal::pretty_name<T>()); }
    constexpr operator id_type() const noexcept { return value(); }
};
template<typename T> struct type_index {
    static id_type value() noexcept { static const id_type v = internal::next_type_index(); return v; }
};
template<typename T> struct type_name {
    static constexpr std::string_view value() noexcept { return internal::pretty_name<T>(); }
};

struct type_info {
    template<typename T> constexpr type_info(std::in_place_type_t<T>) noexcept
        : m_hash{type_hash<std::remove_cv_t<std::remove_reference_t<T>>>::value()}
        , m_name{type_name<std::remove_cv_t<std::remove_reference_t<T>>>::value()} {}
    constexpr id_type hash() const noexcept { return m_hash; }
    constexpr id_type index() const noexcept { return m_hash; }
    constexpr std::string_view name() const noexcept { return m_name; }
private:
    id_type m_hash; std::string_view m_name;
};
constexpr bool operator==(const type_info &a, const type_info &b) noexcept { return a.hash() == b.hash(); }
constexpr bool operator!=(const type_info &a, const type_info &b) noexcept { return !(a == b); }
constexpr bool operator<(const type_info &a, const type_info &b) noexcept { return a.hash() < b.hash(); }

template<typename T> const type_info &type_id() noexcept {
    if constexpr (std::is_same_v<T, std::remove_cv_t<std::remove_reference_t<T>>>) {
        static constexpr type_info instance{std::in_place_type<T>};
        return instance;
    } else {
        return type_id<std::remove_cv_t<std::remove_reference_t<T>>>();
    }
}
template<typename T> const type_info &type_id(T &&) noexcept { return type_id<std::remove_cv_t<std::remove_reference_t<T>>>(); }

// --------------------------------------------------------- hashed string --
class hashed_string {
public:
    using value_type = char; using hash_type = id_type;
    constexpr hashed_string() noexcept = default;
    constexpr hashed_string(const char *s, std::size_t n) noexcept : m_repr{s}, m_len{n}, m_hash{internal::fnv1a({s, n})} {}
    template<std::size_t N> constexpr hashed_string(const char (&s)[N]) noexcept : hashed_string(s, N - 1) {}
    static constexpr hash_type value(std::string_view s) noexcept { return internal::fnv1a(s); }
    constexpr const char *data() const noexcept { return m_repr; }
    constexpr std::size_t size() const noexcept { return m_len; }
    constexpr hash_type value() const noexcept { return m_hash; }
    constexpr operator hash_type() const noexcept { return m_hash; }
    constexpr operator const char *() const noexcept { return m_repr; }
private:
    const char *m_repr{}; std::size_t m_len{}; hash_type m_hash{};
};
constexpr bool operator==(const hashed_string &a, const hashed_string &b) noexcept { return a.value() == b.value(); }
constexpr bool operator!=(const hashed_string &a, const hashed_string &b) noexcept { return !(a == b); }
inline namespace literals {
constexpr hashed_string operator""_hs(const char *s, std::size_t n) noexcept { return hashed_string{s, n}; }
}

// ------------------------------------------------------------------ ident --
template<typename... Types> class ident {
    template<typename T, std::size_t... I>
    static constexpr id_type get(std::index_sequence<I...>) noexcept {
        return (0 + ... + (std::is_same_v<T, std::tuple_element_t<I, std::tuple<std::decay_t<Types>...>>> ? id_type(I) : id_type{}));
    }
public:
    using value_type = id_type;
    template<typename T> static constexpr value_type value = get<std::decay_t<T>>(std::index_sequence_for<Types...>{});
};

// -------------------------------------------------------------- dense_map --
// Insertion ordered map with swap-and-pop erase, like entt::dense_map.
template<typename Key, typename Type, typename Hash = std::hash<Key>, typename KeyEqual = std::equal_to<>, typename Alloc = void>
class dense_map {
    using node = std::pair<Key, Type>;
    std::deque<node> m_nodes;
    std::unordered_map<Key, std::size_t> m_index;
public:
    using key_type = Key; using mapped_type = Type; using value_type = std::pair<const Key, Type>; using size_type = std::size_t;
    using iterator = typename std::deque<node>::iterator; using const_iterator = typename std::deque<node>::const_iterator;
    iterator begin() noexcept { return m_nodes.begin(); }
    iterator end() noexcept { return m_nodes.end(); }
    const_iterator begin() const noexcept { return m_nodes.begin(); }
    const_iterator end() const noexcept { return m_nodes.end(); }
    const_iterator cbegin() const noexcept { return m_nodes.begin(); }
    const_iterator cend() const noexcept { return m_nodes.end(); }
    bool empty() const noexcept { return m_nodes.empty(); }
    size_type size() const noexcept { return m_nodes.size(); }
    void clear() noexcept { m_nodes.clear(); m_index.clear(); }
    void reserve(size_type) {}
    Type &operator[](const Key &k) {
        auto it = m_index.find(k);
        if (it != m_index.end()) return m_nodes[it->second].second;
        m_nodes.emplace_back(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple());
        m_index.emplace(k, m_nodes.size() - 1);
        return m_nodes.back().second;
    }
    template<typename... A> std::pair<iterator, bool> try_emplace(const Key &k, A &&...a) {
        auto it = m_index.find(k);
        if (it != m_index.end()) return {m_nodes.begin() + std::ptrdiff_t(it->second), false};
        m_nodes.emplace_back(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(std::forward<A>(a)...));
        m_index.emplace(k, m_nodes.size() - 1);
        return {std::prev(m_nodes.end()), true};
    }
    template<typename K, typename V> std::pair<iterator, bool> emplace(K &&k, V &&v) { return try_emplace(Key(std::forward<K>(k)), std::forward<V>(v)); }
    std::pair<iterator, bool> insert(value_type v) { return try_emplace(v.first, std::move(v.second)); }
    template<typename V> std::pair<iterator, bool> insert_or_assign(const Key &k, V &&v) {
        auto it = find(k);
        if (it != end()) { it->second = std::forward<V>(v); return {it, false}; }
        return try_emplace(k, std::forward<V>(v));
    }
    iterator find(const Key &k) { auto it = m_index.find(k); return it == m_index.end() ? end() : begin() + std::ptrdiff_t(it->second); }
    const_iterator find(const Key &k) const { auto it = m_index.find(k); return it == m_index.end() ? end() : begin() + std::ptrdiff_t(it->second); }
    bool contains(const Key &k) const { return m_index.count(k) != 0; }
    size_type count(const Key &k) const { return m_index.count(k); }
    Type &at(const Key &k) { auto it = find(k); ENTT_ASSERT(it != end(), "Invalid key"); return it->second; }
    const Type &at(const Key &k) const { auto it = find(k); ENTT_ASSERT(it != end(), "Invalid key"); return it->second; }
    size_type erase(const Key &k) {
        auto it = m_index.find(k);
        if (it == m_index.end()) return 0;
        auto pos = it->second;
        m_index.erase(it);
        if (pos + 1 != m_nodes.size()) { m_nodes[pos] = std::move(m_nodes.back()); m_index[m_nodes[pos].first] = pos; }
        m_nodes.pop_back();
        return 1;
    }
    iterator erase(const_iterator it) { auto pos = it - cbegin(); Key k = it->first; erase(k); return begin() + pos; }
};

// -------------------------------------------------------------------- any --
enum class any_policy : std::uint8_t { empty, owner, ref, cref };

class any {
    enum class op { copy, destroy };
    using vtable_t = void *(*)(op, const void *);
    template<typename T> static void *vt(op o, const void *p) {
        if (o == op::copy) {
            if constexpr (std::is_copy_constructible_v<T>) return new T(*static_cast<const T *>(p));
            else return nullptr;
        }
        delete static_cast<T *>(const_cast<void *>(p));
        return nullptr;
    }
    void *m_ptr{}; const type_info *m_info{&type_id<void>()}; vtable_t m_vt{}; any_policy m_policy{any_policy::empty};
    void destroy() { if (m_policy == any_policy::owner) m_vt(op::destroy, m_ptr); m_ptr = nullptr; m_policy = any_policy::empty; }
public:
    any() noexcept = default;
    template<typename T, typename... A> explicit any(std::in_place_type_t<T>, A &&...a) {
        if constexpr (std::is_void_v<T>) {
        } else if constexpr (std::is_lvalue_reference_v<T>) {
            static_assert(sizeof...(A) == 1);
            auto set = [this](auto &v) { m_ptr = const_cast<void *>(static_cast<const void *>(&v)); };
            (set(a), ...);
            m_info = &type_id<T>();
            m_policy = std::is_const_v<std::remove_reference_t<T>> ? any_policy::cref : any_policy::ref;
        } else {
            using U = std::remove_cv_t<T>;
            if constexpr (std::is_aggregate_v<U> && (sizeof...(A) != 0u || !std::is_default_constructible_v<U>)) m_ptr = new U{std::forward<A>(a)...};
            else m_ptr = new U(std::forward<A>(a)...);
            m_info = &type_id<U>(); m_vt = &vt<U>; m_policy = any_policy::owner;
        }
    }
    template<typename T, typename = std::enable_if_t<!std::is_same_v<std::decay_t<T>, any>>>
    any(T &&v) : any(std::in_place_type<std::decay_t<T>>, std::forward<T>(v)) {}
    any(const any &o) { if (o.m_vt && o.m_policy == any_policy::owner) { m_ptr = o.m_vt(op::copy, o.m_ptr); if (m_ptr) { m_info = o.m_info; m_vt = o.m_vt; m_policy = any_policy::owner; } } else if (o.m_ptr) { m_ptr = o.m_ptr; m_info = o.m_info; m_policy = o.m_policy; } }
    any(any &&o) noexcept : m_ptr{o.m_ptr}, m_info{o.m_info}, m_vt{o.m_vt}, m_policy{o.m_policy} { o.m_ptr = nullptr; o.m_policy = any_policy::empty; o.m_info = &type_id<void>(); }
    any &operator=(any o) noexcept { swap(o); return *this; }
    ~any() { destroy(); }
    void swap(any &o) noexcept { std::swap(m_ptr, o.m_ptr); std::swap(m_info, o.m_info); std::swap(m_vt, o.m_vt); std::swap(m_policy, o.m_policy); }
    const type_info &type() const noexcept { return *m_info; }
    const type_info &info() const noexcept { return *m_info; }
    void reset() { destroy(); m_info = &type_id<void>(); m_vt = nullptr; }
    template<typename T, typename... A> void emplace(A &&...a) { *this = any(std::in_place_type<T>, std::forward<A>(a)...); }
    const void *data() const noexcept { return m_ptr; }
    void *data() noexcept { return m_policy == any_policy::cref ? nullptr : m_ptr; }
    const void *data(const type_info &i) const noexcept { return *m_info == i ? m_ptr : nullptr; }
    void *data(const type_info &i) noexcept { return *m_info == i ? data() : nullptr; }
    bool has_value() const noexcept { return m_policy != any_policy::empty; }
    explicit operator bool() const noexcept { return has_value(); }
    bool owner() const noexcept { return m_policy == any_policy::owner; }
    any as_ref() noexcept { any r; r.m_ptr = m_ptr; r.m_info = m_info; r.m_policy = m_policy == any_policy::cref ? any_policy::cref : any_policy::ref; return r; }
};
template<typename T> const T *any_cast(const any *a) noexcept { return static_cast<const T *>(a->data(type_id<T>())); }
template<typename T> T *any_cast(any *a) noexcept { return static_cast<T *>(a->data(type_id<std::remove_const_t<T>>())); }
template<typename T> T any_cast(const any &a) { auto *p = any_cast<std::remove_cv_t<std::remove_reference_t<T>>>(&a); ENTT_ASSERT(p, "Invalid instance"); return static_cast<T>(*p); }
template<typename T> T any_cast(any &a) { auto *p = any_cast<std::remove_reference_t<T>>(&a); ENTT_ASSERT(p, "Invalid instance"); return static_cast<T>(*p); }
template<typename T> T any_cast(any &&a) { auto *p = any_cast<std::remove_reference_t<T>>(&a); ENTT_ASSERT(p, "Invalid instance"); return static_cast<T>(std::move(*p)); }
template<typename T, typename... A> any make_any(A &&...a) { return any{std::in_place_type<T>, std::forward<A>(a)...}; }
template<typename T> any forward_as_any(T &&v) { return any{std::in_place_type<T &&>, std::forward<T>(v)}; }

// ----------------------------------------------------------------- signal --
namespace internal {
template<typename Ret, typename... Args> constexpr auto function_pointer(Ret (*)(Args...)) noexcept -> Ret (*)(Args...);
template<typename Ret, typename Type, typename... Args, typename Other> constexpr auto function_pointer(Ret (*)(Type, Args...), Other &&) noexcept -> Ret (*)(Args...);
template<typename Class, typename Ret, typename... Args, typename... Other> constexpr auto function_pointer(Ret (Class::*)(Args...), Other &&...) noexcept -> Ret (*)(Args...);
template<typename Class, typename Ret, typename... Args, typename... Other> constexpr auto function_pointer(Ret (Class::*)(Args...) const, Other &&...) noexcept -> Ret (*)(Args...);
template<typename... T> using function_pointer_t = decltype(function_pointer(std::declval<T>()...));
template<typename... Class, typename Ret, typename... Args> constexpr auto index_sequence_for(Ret (*)(Args...)) { return std::index_sequence_for<Class..., Args...>{}; }
}

template<typename> class delegate;
template<typename Ret, typename... Args>
class delegate<Ret(Args...)> {
    using fn_t = Ret(const void *, Args...);
    const void *instance{}; fn_t *fn{};
    template<auto Candidate, std::size_t... Index>
    static auto wrap(std::index_sequence<Index...>) noexcept {
        return [](const void *, Args... args) -> Ret {
            [[maybe_unused]] const auto arguments = std::forward_as_tuple(std::forward<Args>(args)...);
            [[maybe_unused]] constexpr auto offset = !std::is_invocable_r_v<Ret, decltype(Candidate), type_list_element_t<Index, type_list<Args...>>...> * (sizeof...(Args) - sizeof...(Index));
            return static_cast<Ret>(std::invoke(Candidate, std::forward<type_list_element_t<Index + offset, type_list<Args...>>>(std::get<Index + offset>(arguments))...));
        };
    }
    template<auto Candidate, typename Type, std::size_t... Index>
    static auto wrap(Type &, std::index_sequence<Index...>) noexcept {
        return [](const void *payload, Args... args) -> Ret {
            Type *curr = static_cast<Type *>(const_cast<constness_as_t<void, Type> *>(payload));
            [[maybe_unused]] const auto arguments = std::forward_as_tuple(std::forward<Args>(args)...);
            [[maybe_unused]] constexpr auto offset = !std::is_invocable_r_v<Ret, decltype(Candidate), Type &, type_list_element_t<Index, type_list<Args...>>...> * (sizeof...(Args) - sizeof...(Index));
            return static_cast<Ret>(std::invoke(Candidate, *curr, std::forward<type_list_element_t<Index + offset, type_list<Args...>>>(std::get<Index + offset>(arguments))...));
        };
    }
    template<auto Candidate, typename Type, std::size_t... Index>
    static auto wrap(Type *, std::index_sequence<Index...>) noexcept {
        return [](const void *payload, Args... args) -> Ret {
            Type *curr = static_cast<Type *>(const_cast<constness_as_t<void, Type> *>(payload));
            [[maybe_unused]] const auto arguments = std::forward_as_tuple(std::forward<Args>(args)...);
            [[maybe_unused]] constexpr auto offset = !std::is_invocable_r_v<Ret, decltype(Candidate), Type *, type_list_element_t<Index, type_list<Args...>>...> * (sizeof...(Args) - sizeof...(Index));
            return static_cast<Ret>(std::invoke(Candidate, curr, std::forward<type_list_element_t<Index + offset, type_list<Args...>>>(std::get<Index + offset>(arguments))...));
        };
    }
public:
    using function_type = Ret(const void *, Args...);
    using type = Ret(Args...);
    using result_type = Ret;
    delegate() noexcept = default;
    delegate(function_type *f, const void *payload = nullptr) noexcept { connect(f, payload); }
    template<auto Candidate> delegate(connect_arg_t<Candidate>) noexcept { connect<Candidate>(); }
    template<auto Candidate, typename Type> delegate(connect_arg_t<Candidate>, Type &&v) noexcept { connect<Candidate>(std::forward<Type>(v)); }
    template<auto Candidate> void connect() noexcept {
        instance = nullptr;
        if constexpr (std::is_invocable_r_v<Ret, decltype(Candidate), Args...>) {
            fn = [](const void *, Args... args) -> Ret { return Ret(std::invoke(Candidate, std::forward<Args>(args)...)); };
        } else if constexpr (std::is_member_pointer_v<decltype(Candidate)>) {
            fn = wrap<Candidate>(internal::index_sequence_for<type_list_element_t<0, type_list<Args...>>>(internal::function_pointer_t<decltype(Candidate)>{}));
        } else {
            fn = wrap<Candidate>(internal::index_sequence_for(internal::function_pointer_t<decltype(Candidate)>{}));
        }
    }
    template<auto Candidate, typename Type> void connect(Type &value_or_instance) noexcept {
        instance = &value_or_instance;
        if constexpr (std::is_invocable_r_v<Ret, decltype(Candidate), Type &, Args...>) {
            fn = [](const void *payload, Args... args) -> Ret {
                Type *curr = static_cast<Type *>(const_cast<constness_as_t<void, Type> *>(payload));
                return Ret(std::invoke(Candidate, *curr, std::forward<Args>(args)...));
            };
        } else {
            fn = wrap<Candidate>(value_or_instance, internal::index_sequence_for(internal::function_pointer_t<decltype(Candidate), Type>{}));
        }
    }
    template<auto Candidate, typename Type> void connect(Type *value_or_instance) noexcept {
        instance = value_or_instance;
        if constexpr (std::is_invocable_r_v<Ret, decltype(Candidate), Type *, Args...>) {
            fn = [](const void *payload, Args... args) -> Ret {
                Type *curr = static_cast<Type *>(const_cast<constness_as_t<void, Type> *>(payload));
                return Ret(std::invoke(Candidate, curr, std::forward<Args>(args)...));
            };
        } else {
            fn = wrap<Candidate>(value_or_instance, internal::index_sequence_for(internal::function_pointer_t<decltype(Candidate), Type>{}));
        }
    }
    void connect(function_type *f, const void *payload = nullptr) noexcept { ENTT_ASSERT(f != nullptr, "Uninitialized function pointer"); instance = payload; fn = f; }
    void reset() noexcept { instance = nullptr; fn = nullptr; }
    function_type *target() const noexcept { return fn; }
    const void *data() const noexcept { return instance; }
    Ret operator()(Args... args) const { ENTT_ASSERT(fn != nullptr, "Uninitialized delegate"); return fn(instance, std::forward<Args>(args)...); }
    explicit operator bool() const noexcept { return fn != nullptr; }
    bool operator==(const delegate &o) const noexcept { return fn == o.fn && instance == o.instance; }
    bool operator!=(const delegate &o) const noexcept { return !(*this == o); }
};
template<typename Ret, typename... Args> delegate(Ret (*)(const void *, Args...), const void * = nullptr) -> delegate<Ret(Args...)>;
template<auto Candidate> delegate(connect_arg_t<Candidate>) -> delegate<std::remove_pointer_t<internal::function_pointer_t<decltype(Candidate)>>>;
template<auto Candidate, typename Type> delegate(connect_arg_t<Candidate>, Type &&) -> delegate<std::remove_pointer_t<internal::function_pointer_t<decltype(Candidate), Type>>>;

class connection {
    template<typename> friend class sink;
    connection(delegate<void(void *)> fn, void *ref) : disconnect{fn}, signal{ref} {}
    delegate<void(void *)> disconnect{}; void *signal{};
public:
    connection() noexcept = default;
    explicit operator bool() const noexcept { return static_cast<bool>(disconnect); }
    void release() { if (disconnect) { disconnect(signal); disconnect.reset(); } }
};
struct scoped_connection {
    scoped_connection() = default;
    scoped_connection(const connection &o) : conn{o} {}
    scoped_connection(const scoped_connection &) = delete;
    scoped_connection(scoped_connection &&o) noexcept : conn{std::exchange(o.conn, {})} {}
    ~scoped_connection() { conn.release(); }
    scoped_connection &operator=(const scoped_connection &) = delete;
    scoped_connection &operator=(scoped_connection &&o) noexcept { conn = std::exchange(o.conn, {}); return *this; }
    scoped_connection &operator=(connection o) { conn = std::move(o); return *this; }
    explicit operator bool() const noexcept { return static_cast<bool>(conn); }
    void release() { conn.release(); }
private:
    connection conn{};
};

template<typename> class sink;
template<typename, typename = std::allocator<void>> class sigh;
template<typename Ret, typename... Args, typename Alloc>
class sigh<Ret(Args...), Alloc> {
    friend class sink<sigh<Ret(Args...), Alloc>>;
    std::vector<delegate<Ret(Args...)>> calls;
public:
    using allocator_type = Alloc; using size_type = std::size_t;
    using sink_type = sink<sigh<Ret(Args...), Alloc>>;
    sigh() noexcept = default;
    explicit sigh(const Alloc &) {}
    size_type size() const noexcept { return calls.size(); }
    bool empty() const noexcept { return calls.empty(); }
    void publish(Args... args) const {
#ifdef VERIF_ENTT_FORWARD_SIGNALS
        for (std::size_t i = 0; i < calls.size(); ++i) calls[i](args...);
#else
        for (auto pos = calls.size(); pos; --pos) calls[pos - 1u](args...);
#endif
    }
    template<typename Func> void collect(Func func, Args... args) const {
        for (auto pos = calls.size(); pos; --pos) {
            if constexpr (std::is_void_v<Ret> || !std::is_invocable_v<Func, Ret>) {
                calls[pos - 1u](args...);
                if constexpr (std::is_invocable_r_v<bool, Func>) { if (func()) break; } else func();
            } else {
                if constexpr (std::is_invocable_r_v<bool, Func, Ret>) { if (func(calls[pos - 1u](args...))) break; } else func(calls[pos - 1u](args...));
            }
        }
    }
};
template<typename Ret, typename... Args, typename Alloc>
class sink<sigh<Ret(Args...), Alloc>> {
    using signal_type = sigh<Ret(Args...), Alloc>;
    using delegate_type = delegate<Ret(Args...)>;
    signal_type *signal{};
    template<auto Candidate, typename Type> static void release(Type value, void *sig) { sink{*static_cast<signal_type *>(sig)}.template disconnect<Candidate>(value); }
    template<auto Candidate> static void release(void *sig) { sink{*static_cast<signal_type *>(sig)}.template disconnect<Candidate>(); }
    template<typename Func> void disconnect_if(Func cb) {
        for (auto pos = signal->calls.size(); pos; --pos) {
            if (auto &elem = signal->calls[pos - 1u]; cb(elem)) {
                elem = std::move(signal->calls.back());
                signal->calls.pop_back();
            }
        }
    }
public:
    sink() noexcept = default;
    sink(signal_type &ref) noexcept : signal{&ref} {}
    bool empty() const noexcept { return signal->calls.empty(); }
    template<auto Candidate, typename... Type> connection connect(Type &&...v) {
        disconnect<Candidate>(v...);
        delegate_type call{};
        call.template connect<Candidate>(v...);
        signal->calls.push_back(std::move(call));
        delegate<void(void *)> conn{};
        if constexpr (sizeof...(Type) == 0) conn.template connect<&sink::release<Candidate>>();
        else connect_release<Candidate>(conn, v...);
        return connection{conn, signal};
    }
    template<auto Candidate, typename... Type> void disconnect(Type &&...v) {
        delegate_type call{};
        call.template connect<Candidate>(v...);
        disconnect_if([&call](const auto &e) { return e == call; });
    }
    void disconnect(const void *v) { disconnect_if([v](const auto &e) { return e.data() == v; }); }
    void disconnect() { signal->calls.clear(); }
    explicit operator bool() const noexcept { return signal != nullptr; }
private:
    template<auto Candidate, typename Type> static void connect_release(delegate<void(void *)> &conn, Type &v) { conn.template connect<&sink::release<Candidate, Type &>>(v); }
    template<auto Candidate, typename Type> static void connect_release(delegate<void(void *)> &conn, Type *v) { conn.template connect<&sink::release<Candidate, Type *>>(v); }
};
template<typename Ret, typename... Args, typename Alloc> sink(sigh<Ret(Args...), Alloc> &) -> sink<sigh<Ret(Args...), Alloc>>;

// ----------------------------------------------------------------- entity --
enum class entity : id_type {};
template<typename E> struct entt_traits {
    using value_type = E; using entity_type = std::uint32_t; using version_type = std::uint16_t;
    static constexpr entity_type entity_mask = 0xFFFFF;
    static constexpr entity_type version_mask = 0xFFF;
    static constexpr std::size_t page_size = 4096;
    static constexpr entity_type to_integral(E v) noexcept { return static_cast<entity_type>(v); }
    static constexpr entity_type to_entity(E v) noexcept { return to_integral(v) & entity_mask; }
    static constexpr version_type to_version(E v) noexcept { return static_cast<version_type>(to_integral(v) >> 20); }
    static constexpr E construct(entity_type e, version_type v) noexcept { return E{(e & entity_mask) | (static_cast<entity_type>(v & version_mask) << 20)}; }
    static constexpr E next(E v) noexcept { const auto vers = static_cast<version_type>(to_version(v) + 1); return construct(to_entity(v), static_cast<version_type>(vers + (vers == version_mask))); }
};
constexpr std::uint32_t to_integral(entity e) noexcept { return entt_traits<entity>::to_integral(e); }
constexpr std::uint32_t to_entity(entity e) noexcept { return entt_traits<entity>::to_entity(e); }
constexpr std::uint16_t to_version(entity e) noexcept { return entt_traits<entity>::to_version(e); }

struct null_t {
    constexpr operator entity() const noexcept { return entt_traits<entity>::construct(0xFFFFF, 0xFFF); }
    constexpr bool operator==(null_t) const noexcept { return true; }
    constexpr bool operator!=(null_t) const noexcept { return false; }
};
constexpr bool operator==(null_t, entity e) noexcept { return to_entity(e) == 0xFFFFF; }
constexpr bool operator!=(null_t, entity e) noexcept { return to_entity(e) != 0xFFFFF; }
constexpr bool operator==(entity e, null_t) noexcept { return to_entity(e) == 0xFFFFF; }
constexpr bool operator!=(entity e, null_t) noexcept { return to_entity(e) != 0xFFFFF; }
inline constexpr null_t null{};
struct tombstone_t {
    constexpr operator entity() const noexcept { return entt_traits<entity>::construct(0xFFFFF, 0xFFF); }
};
constexpr bool operator==(tombstone_t, entity e) noexcept { return to_version(e) == 0xFFF; }
constexpr bool operator!=(tombstone_t, entity e) noexcept { return to_version(e) != 0xFFF; }
constexpr bool operator==(entity e, tombstone_t) noexcept { return to_version(e) == 0xFFF; }
constexpr bool operator!=(entity e, tombstone_t) noexcept { return to_version(e) != 0xFFF; }
inline constexpr tombstone_t tombstone{};

template<typename T, typename = void> struct in_place_delete_of : std::bool_constant<!(std::is_move_constructible_v<T> && std::is_move_assignable_v<T>)> {};
template<> struct in_place_delete_of<void> : std::false_type {};
template<typename T> struct in_place_delete_of<T, std::enable_if_t<T::in_place_delete>> : std::true_type {};
template<typename T> struct component_traits {
    using type = T; using element_type = T; using entity_type = entity;
    static constexpr bool in_place_delete = in_place_delete_of<T>::value;
    static constexpr std::size_t page_size = is_ebco_eligible_v<T> ? 0u : 1024u;
};
enum class deletion_policy : std::uint8_t { swap_and_pop = 0u, in_place = 1u, swap_only = 2u };

// ------------------------------------------------------------- sparse_set --
class registry;
using basic_registry_entity = registry;

template<typename It> struct iterable_adaptor {
    It first, last;
    It begin() const { return first; }
    It end() const { return last; }
    It cbegin() const { return first; }
    It cend() const { return last; }
};

class sparse_set {
public:
    using entity_type = entity; using value_type = entity; using size_type = std::size_t; using version_type = std::uint16_t;
    struct iterator {
        using value_type = entity; using pointer = const entity *; using reference = const entity &; using difference_type = std::ptrdiff_t;
        using iterator_category = std::random_access_iterator_tag;
        const std::vector<entity> *packed{}; difference_type offset{};
        iterator() = default;
        iterator(const std::vector<entity> &p, difference_type o) : packed{&p}, offset{o} {}
        iterator &operator++() { --offset; return *this; }
        iterator operator++(int) { auto o = *this; ++*this; return o; }
        iterator &operator--() { ++offset; return *this; }
        iterator operator--(int) { auto o = *this; --*this; return o; }
        iterator &operator+=(difference_type v) { offset -= v; return *this; }
        iterator operator+(difference_type v) const { auto c = *this; return c += v; }
        iterator &operator-=(difference_type v) { return *this += -v; }
        iterator operator-(difference_type v) const { return *this + -v; }
        difference_type operator-(const iterator &o) const { return o.offset - offset; }
        reference operator[](difference_type v) const { return (*packed)[std::size_t(offset - 1 - v)]; }
        reference operator*() const { return operator[](0); }
        pointer operator->() const { return &operator[](0); }
        bool operator==(const iterator &o) const { return offset == o.offset; }
        bool operator!=(const iterator &o) const { return offset != o.offset; }
        bool operator<(const iterator &o) const { return offset > o.offset; }
        bool operator>(const iterator &o) const { return offset < o.offset; }
        bool operator<=(const iterator &o) const { return !(*this > o); }
        bool operator>=(const iterator &o) const { return !(*this < o); }
        difference_type index() const { return offset - 1; }
        const std::vector<entity> *data() const { return packed; }
    };
    using const_iterator = iterator;
    using reverse_iterator = std::reverse_iterator<iterator>;

    sparse_set() : sparse_set(type_id<void>(), deletion_policy::swap_and_pop) {}
    explicit sparse_set(deletion_policy p) : sparse_set(type_id<void>(), p) {}
    explicit sparse_set(const type_info &i, deletion_policy p = deletion_policy::swap_and_pop) : m_info{&i}, m_mode{p}, m_head{policy_to_head()} {}
    sparse_set(const sparse_set &) = delete;
    sparse_set(sparse_set &&o) noexcept : m_sparse{std::move(o.m_sparse)}, m_packed{std::move(o.m_packed)}, m_info{o.m_info}, m_mode{o.m_mode}, m_head{std::exchange(o.m_head, o.policy_to_head())} { o.m_sparse.clear(); o.m_packed.clear(); }
    virtual ~sparse_set() = default;
    sparse_set &operator=(const sparse_set &) = delete;
    sparse_set &operator=(sparse_set &&o) noexcept { std::swap(m_sparse, o.m_sparse); std::swap(m_packed, o.m_packed); std::swap(m_info, o.m_info); std::swap(m_mode, o.m_mode); std::swap(m_head, o.m_head); return *this; }
    void swap(sparse_set &o) noexcept { std::swap(m_sparse, o.m_sparse); std::swap(m_packed, o.m_packed); std::swap(m_info, o.m_info); std::swap(m_mode, o.m_mode); std::swap(m_head, o.m_head); }

    deletion_policy policy() const noexcept { return m_mode; }
    virtual void reserve(size_type n) { m_packed.reserve(n); }
    size_type capacity() const noexcept { return m_packed.capacity(); }
    virtual void shrink_to_fit() {}
    size_type size() const noexcept { return m_packed.size(); }
    bool empty() const noexcept { return m_packed.empty(); }
    bool contiguous() const noexcept { return m_mode != deletion_policy::in_place || m_head == max_head; }
    const entity *data() const noexcept { return m_packed.data(); }
    iterator begin() const { return iterator{m_packed, std::ptrdiff_t(m_packed.size())}; }
    iterator cbegin() const { return begin(); }
    iterator end() const { return iterator{m_packed, 0}; }
    iterator cend() const { return end(); }
    reverse_iterator rbegin() const { return std::make_reverse_iterator(end()); }
    reverse_iterator rend() const { return std::make_reverse_iterator(begin()); }
    iterator begin(int) const { return m_mode == deletion_policy::swap_only ? iterator{m_packed, std::ptrdiff_t(m_head)} : begin(); }
    iterator end(int) const { return end(); }
    iterator find(entity e) const { return contains(e) ? iterator{m_packed, std::ptrdiff_t(index(e)) + 1} : end(); }
    bool contains(entity e) const noexcept {
        const auto *p = sparse_ptr(e);
        return p && *p != npos && m_packed[*p] == e && (m_mode != deletion_policy::swap_only || *p < m_head);
    }
    version_type current(entity e) const noexcept { const auto *p = sparse_ptr(e); return p && *p != npos ? to_version(m_packed[*p]) : to_version(tombstone); }
    size_type index(entity e) const { ENTT_ASSERT(contains(e), "Set does not contain entity"); return *sparse_ptr(e); }
    entity operator[](size_type pos) const { ENTT_ASSERT(pos < m_packed.size(), "Index out of bounds"); return m_packed[pos]; }
    entity at(size_type pos) const { return pos < m_packed.size() ? m_packed[pos] : entity{null}; }
    const type_info &info() const noexcept { return *m_info; }
    const type_info &type() const noexcept { return *m_info; }

    iterator push(entity e, const void *elem = nullptr) { return try_emplace(e, m_mode == deletion_policy::swap_only, elem); }
    template<typename It> iterator push(It first, It last) {
        iterator c = end();
        for (; first != last; ++first) c = try_emplace(*first, true);
        return c;
    }
    void erase(entity e) { auto it = find(e); ENTT_ASSERT(it != end(), "Set does not contain entity"); pop(it, it + 1); }
    template<typename It> void erase(It first, It last) {
        if constexpr (std::is_same_v<It, iterator>) pop(first, last);
        else for (; first != last; ++first) erase(*first);
    }
    bool remove(entity e) {
        auto it = find(e);
        if (it == end()) return false;
        pop(it, it + 1);
        return true;
    }
    template<typename It> size_type remove(It first, It last) { size_type c{}; for (; first != last; ++first) c += remove(*first); return c; }
    void clear() { pop_all(); m_head = policy_to_head(); m_packed.clear(); }
    void compact() {
        if (m_mode != deletion_policy::in_place) return;
        size_type from = m_packed.size();
        for (; from && m_packed[from - 1] == tombstone; --from) {}
        while (m_head != max_head) {
            auto to = m_head;
            m_head = static_cast<size_type>(to_entity(m_packed[to]));
            if (m_head == to_entity(null)) m_head = max_head;
            if (to < from) {
                --from;
                swap_or_move(from, to);
                m_packed[to] = m_packed[from];
                *sparse_ptr(m_packed[to]) = std::uint32_t(to);
                m_packed[from] = tombstone;
                for (; from && m_packed[from - 1] == tombstone; --from) {}
            }
        }
        m_packed.resize(from);
    }
    void swap_elements(entity a, entity b) {
        auto from = index(a), to = index(b);
        swap_or_move(from, to);
        std::swap(m_packed[from], m_packed[to]);
        *sparse_ptr(a) = std::uint32_t(to); *sparse_ptr(b) = std::uint32_t(from);
    }
    size_type free_list() const noexcept { return m_head; }
    void free_list(size_type v) noexcept { m_head = v; }
    virtual void bind(any) noexcept {}
    virtual void bind_registry(registry &) noexcept {}
    virtual const void *get_at(size_type) const { return nullptr; }
    const void *value(entity e) const { return get_at(index(e)); }
    void *value(entity e) { return const_cast<void *>(get_at(index(e))); }

protected:
    static constexpr std::uint32_t npos = std::numeric_limits<std::uint32_t>::max();
    static constexpr size_type max_head = std::numeric_limits<size_type>::max();
    static constexpr std::size_t page = 4096;
    size_type policy_to_head() const noexcept { return m_mode == deletion_policy::swap_only ? 0 : max_head; }
    virtual void swap_or_move(size_type, size_type) {}
    const std::uint32_t *sparse_ptr(entity e) const noexcept {
        auto pos = to_entity(e); auto pg = pos / page;
        return pg < m_sparse.size() && m_sparse[pg] ? &m_sparse[pg][pos % page] : nullptr;
    }
    std::uint32_t *sparse_ptr(entity e) noexcept { return const_cast<std::uint32_t *>(static_cast<const sparse_set *>(this)->sparse_ptr(e)); }
    std::uint32_t &assure_sparse(entity e) {
        auto pos = to_entity(e); auto pg = pos / page;
        if (pg >= m_sparse.size()) m_sparse.resize(pg + 1);
        if (!m_sparse[pg]) { m_sparse[pg].reset(new std::uint32_t[page]); std::fill_n(m_sparse[pg].get(), page, npos); }
        return m_sparse[pg][pos % page];
    }
    void swap_and_pop(iterator it) {
        auto pos = size_type(it.index()); auto e = m_packed[pos]; auto back = m_packed.back();
        *sparse_ptr(back) = std::uint32_t(pos);
        m_packed[pos] = back;
        *sparse_ptr(e) = npos;
        m_packed.pop_back();
    }
    void in_place_pop(iterator it) {
        auto pos = size_type(it.index()); auto e = m_packed[pos];
        *sparse_ptr(e) = npos;
        m_packed[pos] = entt_traits<entity>::construct(m_head == max_head ? to_entity(null) : std::uint32_t(m_head), to_version(tombstone));
        m_head = pos;
    }
    virtual void pop(iterator first, iterator last) {
        for (; first != last; ++first) {
            if (m_mode == deletion_policy::in_place) in_place_pop(first);
            else swap_and_pop(first);
        }
    }
    virtual void pop_all() {
        for (auto e : m_packed) if (!(e == tombstone)) if (auto *p = sparse_ptr(e)) *p = npos;
        m_head = policy_to_head();
        m_packed.clear();
    }
    virtual iterator try_emplace(entity e, bool force_back, const void * = nullptr) {
        ENTT_ASSERT(e != null, "Invalid entity");
        auto &elem = assure_sparse(e);
        auto pos = m_packed.size();
        if (m_mode == deletion_policy::in_place && m_head != max_head && !force_back) {
            ENTT_ASSERT(elem == npos, "Slot not available");
            pos = m_head;
            auto nxt = to_entity(m_packed[pos]);
            m_head = nxt == to_entity(null) ? max_head : nxt;
            m_packed[pos] = e;
        } else {
            ENTT_ASSERT(elem == npos, "Slot not available");
            m_packed.push_back(e);
        }
        elem = std::uint32_t(pos);
        return iterator{m_packed, std::ptrdiff_t(pos) + 1};
    }
    std::vector<std::unique_ptr<std::uint32_t[]>> m_sparse;
    std::vector<entity> m_packed;
    const type_info *m_info;
    deletion_policy m_mode;
    size_type m_head;
};

// ---------------------------------------------------------------- storage --
namespace internal {
template<typename It, typename... Other> struct extended_iter {
    std::tuple<It, Other...> it;
    using value_type = decltype(std::tuple_cat(std::make_tuple(*std::declval<It>()), std::forward_as_tuple(*std::declval<Other>()...)));
    using reference = value_type; using difference_type = std::ptrdiff_t; using pointer = void; using iterator_category = std::input_iterator_tag;
    extended_iter &operator++() { std::apply([](auto &...i) { ((++i), ...); }, it); return *this; }
    extended_iter operator++(int) { auto o = *this; ++*this; return o; }
    reference operator*() const { return std::apply([](auto &b, auto &...o) { return reference{*b, *o...}; }, it); }
    bool operator==(const extended_iter &o) const { return std::get<0>(it) == std::get<0>(o.it); }
    bool operator!=(const extended_iter &o) const { return !(*this == o); }
};
}

template<typename Type, typename Entity = entity, typename Alloc = void, typename = void>
class basic_storage : public sparse_set {
    static constexpr std::size_t psize = 1024;
    using slot = std::aligned_storage_t<sizeof(Type), alignof(Type)>;
    std::vector<std::unique_ptr<slot[]>> m_payload;
    Type *slot_at(std::size_t pos) const { return std::launder(reinterpret_cast<Type *>(&m_payload[pos / psize][pos % psize])); }
    void *raw_slot(std::size_t pos) {
        while (pos / psize >= m_payload.size()) m_payload.emplace_back(new slot[psize]);
        return &m_payload[pos / psize][pos % psize];
    }
    void destroy_payload() { for (std::size_t i = 0; i < m_packed.size(); ++i) if (!(m_packed[i] == tombstone)) slot_at(i)->~Type(); }
    template<bool Const> struct comp_iterator {
        using value_type = Type; using pointer = std::conditional_t<Const, const Type *, Type *>; using reference = std::conditional_t<Const, const Type &, Type &>; using difference_type = std::ptrdiff_t;
        using iterator_category = std::random_access_iterator_tag;
        const basic_storage *st{}; difference_type offset{};
        comp_iterator &operator++() { --offset; return *this; }
        comp_iterator operator++(int) { auto o = *this; ++*this; return o; }
        comp_iterator &operator--() { ++offset; return *this; }
        comp_iterator &operator+=(difference_type v) { offset -= v; return *this; }
        comp_iterator operator+(difference_type v) const { auto c = *this; return c += v; }
        comp_iterator operator-(difference_type v) const { auto c = *this; return c += -v; }
        difference_type operator-(const comp_iterator &o) const { return o.offset - offset; }
        reference operator*() const { return *st->slot_at(std::size_t(offset - 1)); }
        pointer operator->() const { return st->slot_at(std::size_t(offset - 1)); }
        reference operator[](difference_type v) const { return *st->slot_at(std::size_t(offset - 1 - v)); }
        bool operator==(const comp_iterator &o) const { return offset == o.offset; }
        bool operator!=(const comp_iterator &o) const { return offset != o.offset; }
        bool operator<(const comp_iterator &o) const { return offset > o.offset; }
    };
protected:
    using base_type = sparse_set; using underlying_iterator = sparse_set::iterator;
    void swap_or_move(size_type from, size_type to) override {
        if constexpr (std::is_move_constructible_v<Type> && std::is_move_assignable_v<Type>) {
            bool to_tomb = m_packed[to] == tombstone;
            if (to_tomb) { ::new (raw_slot(to)) Type(std::move(*slot_at(from))); slot_at(from)->~Type(); }
            else std::swap(*slot_at(from), *slot_at(to));
        }
    }
    void pop(underlying_iterator first, underlying_iterator last) override {
        for (; first != last; ++first) {
            auto pos = size_type(first.index());
            if (m_mode == deletion_policy::in_place) {
                in_place_pop(first);
                slot_at(pos)->~Type();
            } else {
                if constexpr (std::is_move_constructible_v<Type> && std::is_move_assignable_v<Type>) {
                    auto *last_elem = slot_at(m_packed.size() - 1);
                    auto *elem = slot_at(pos);
                    [[maybe_unused]] auto unused = std::exchange(*elem, std::move(*last_elem));
                    last_elem->~Type();
                    swap_and_pop(first);
                }
            }
        }
    }
    void pop_all() override { destroy_payload(); sparse_set::pop_all(); }
    template<typename... Args> underlying_iterator emplace_element(entity e, bool force_back, Args &&...args) {
        auto it = sparse_set::try_emplace(e, force_back);
        void *mem = raw_slot(size_type(it.index()));
        if constexpr (std::is_aggregate_v<Type> && (sizeof...(Args) != 0u || !std::is_default_constructible_v<Type>)) ::new (mem) Type{std::forward<Args>(args)...};
        else ::new (mem) Type(std::forward<Args>(args)...);
        return it;
    }
    underlying_iterator try_emplace(entity e, bool force_back, const void *value = nullptr) override {
        if (value) {
            if constexpr (std::is_copy_constructible_v<Type>) return emplace_element(e, force_back, *static_cast<const Type *>(value));
            else return sparse_set::end();
        } else {
            if constexpr (std::is_default_constructible_v<Type>) return emplace_element(e, force_back);
            else return sparse_set::end();
        }
    }
public:
    using value_type = Type; using element_type = Type; using entity_type = entity;
    using iterator = comp_iterator<false>; using const_iterator = comp_iterator<true>;
    static constexpr deletion_policy storage_policy{deletion_policy(component_traits<Type>::in_place_delete)};
    basic_storage() : sparse_set(type_id<Type>(), storage_policy) {}
    basic_storage(basic_storage &&o) noexcept : sparse_set(std::move(o)), m_payload{std::move(o.m_payload)} {}
    basic_storage &operator=(basic_storage &&o) noexcept { std::swap(m_payload, o.m_payload); sparse_set::operator=(std::move(o)); return *this; }
    ~basic_storage() override { destroy_payload(); }
    const void *get_at(size_type pos) const override { return slot_at(pos); }
    iterator begin() noexcept { return {this, std::ptrdiff_t(m_packed.size())}; }
    iterator end() noexcept { return {this, 0}; }
    const_iterator begin() const noexcept { return {this, std::ptrdiff_t(m_packed.size())}; }
    const_iterator end() const noexcept { return {this, 0}; }
    const_iterator cbegin() const noexcept { return begin(); }
    const_iterator cend() const noexcept { return end(); }
    const Type &get(entity e) const { return *slot_at(index(e)); }
    Type &get(entity e) { return *slot_at(index(e)); }
    std::tuple<const Type &> get_as_tuple(entity e) const { return std::forward_as_tuple(get(e)); }
    std::tuple<Type &> get_as_tuple(entity e) { return std::forward_as_tuple(get(e)); }
    template<typename... Args> Type &emplace(entity e, Args &&...args) {
        auto it = emplace_element(e, false, std::forward<Args>(args)...);
        return *slot_at(size_type(it.index()));
    }
    template<typename... Func> Type &patch(entity e, Func &&...func) { auto &elem = get(e); (std::forward<Func>(func)(elem), ...); return elem; }
    template<typename It> void insert(It first, It last, const Type &v = {}) { for (; first != last; ++first) emplace_element(*first, true, v); }
    template<typename EIt, typename CIt, typename = std::enable_if_t<!std::is_convertible_v<CIt, Type>>>
    void insert(EIt first, EIt last, CIt from) { for (; first != last; ++first, ++from) emplace_element(*first, true, *from); }
    auto each() { using E = internal::extended_iter<sparse_set::iterator, iterator>; return iterable_adaptor<E>{E{{sparse_set::begin(), begin()}}, E{{sparse_set::end(), end()}}}; }
    auto each() const { using E = internal::extended_iter<sparse_set::iterator, const_iterator>; return iterable_adaptor<E>{E{{sparse_set::begin(), begin()}}, E{{sparse_set::end(), end()}}}; }
};

// Empty types.
template<typename Type, typename Entity, typename Alloc>
class basic_storage<Type, Entity, Alloc, std::enable_if_t<is_ebco_eligible_v<Type>>> : public sparse_set {
public:
    using value_type = Type; using element_type = void; using entity_type = entity;
    static constexpr deletion_policy storage_policy{deletion_policy(component_traits<Type>::in_place_delete)};
    basic_storage() : sparse_set(type_id<Type>(), storage_policy) {}
    basic_storage(basic_storage &&) noexcept = default;
    basic_storage &operator=(basic_storage &&) noexcept = default;
    void get(entity e) const { ENTT_ASSERT(contains(e), "Invalid entity"); }
    std::tuple<> get_as_tuple(entity e) const { ENTT_ASSERT(contains(e), "Invalid entity"); return {}; }
    template<typename... Args> void emplace(entity e, Args &&...) { sparse_set::try_emplace(e, false); }
    template<typename... Func> void patch(entity e, Func &&...func) { ENTT_ASSERT(contains(e), "Invalid entity"); (std::forward<Func>(func)(), ...); }
    template<typename It, typename... A> void insert(It first, It last, A &&...) { for (; first != last; ++first) sparse_set::try_emplace(*first, true); }
    auto each() const { using E = internal::extended_iter<sparse_set::iterator>; return iterable_adaptor<E>{E{{sparse_set::begin()}}, E{{sparse_set::end()}}}; }
};

// Entity storage (swap_only): live entities first.
template<typename Entity, typename Alloc>
class basic_storage<entity, Entity, Alloc, void> : public sparse_set {
    std::uint32_t m_placeholder{};
    entity next_id() {
        entity e{null};
        do { ENTT_ASSERT(m_placeholder < to_entity(null), "No more entities available"); e = entt_traits<entity>::construct(m_placeholder++, {}); } while (current(e) != to_version(tombstone));
        return e;
    }
protected:
    void swap_at(size_type a, size_type b) {
        std::swap(m_packed[a], m_packed[b]);
        *sparse_ptr(m_packed[a]) = std::uint32_t(a); *sparse_ptr(m_packed[b]) = std::uint32_t(b);
    }
    void pop(sparse_set::iterator first, sparse_set::iterator last) override {
        for (; first != last; ++first) {
            auto pos = size_type(first.index()); auto e = m_packed[pos];
            --m_head;
            swap_at(pos, m_head);
            m_packed[m_head] = entt_traits<entity>::next(e);
        }
    }
    void pop_all() override { sparse_set::pop_all(); m_placeholder = 0; }
    sparse_set::iterator try_emplace(entity hint, bool, const void * = nullptr) override { return find(generate(hint)); }
public:
    using value_type = entity; using element_type = void; using entity_type = entity;
    static constexpr deletion_policy storage_policy = deletion_policy::swap_only;
    basic_storage() : sparse_set(type_id<void>(), storage_policy) {}
    void get(entity e) const { ENTT_ASSERT(contains(e), "Invalid entity"); }
    std::tuple<> get_as_tuple(entity) const { return {}; }
    entity generate() {
        if (m_head != m_packed.size()) return m_packed[m_head++];
        auto e = next_id();
        assure_sparse(e) = std::uint32_t(m_packed.size());
        m_packed.push_back(e);
        ++m_head;
        return e;
    }
    entity generate(entity hint) {
        if (hint != null && !(hint == tombstone)) {
            auto curr = entt_traits<entity>::construct(to_entity(hint), current(hint));
            if (curr == tombstone || to_version(curr) == to_version(tombstone)) {
                assure_sparse(hint) = std::uint32_t(m_packed.size());
                m_packed.push_back(hint);
                swap_at(m_packed.size() - 1, m_head++);
                return hint;
            } else if (auto pos = *sparse_ptr(curr); !(pos < m_head)) {
                m_packed[pos] = hint;
                swap_at(pos, m_head++);
                return hint;
            }
        }
        return generate();
    }
    template<typename... A> entity emplace(A &&...a) { return generate(std::forward<A>(a)...); }
    template<typename It> void generate(It first, It last) { for (; first != last; ++first) *first = generate(); }
    template<typename It> void insert(It first, It last) { generate(first, last); }
    size_type in_use() const noexcept { return m_head; }
    auto each() const {
        using E = internal::extended_iter<sparse_set::iterator>;
        return iterable_adaptor<E>{E{{sparse_set::begin(0)}}, E{{sparse_set::end(0)}}};
    }
    template<typename... Func> void patch(entity, Func &&...func) { (std::forward<Func>(func)(), ...); }
};

template<typename T> using storage = basic_storage<T>;

// Storage with signals, as used by the registry.
template<typename Type>
class sigh_mixin final : public basic_storage<Type> {
    using underlying = basic_storage<Type>;
    registry *owner{};
    sigh<void(registry &, const entity)> construction, destruction, update;
    registry &owner_or_assert() const { ENTT_ASSERT(owner != nullptr, "Invalid pointer to registry"); return *owner; }
protected:
    void pop(sparse_set::iterator first, sparse_set::iterator last) override {
        if (auto &reg = owner_or_assert(); destruction.empty()) {
            underlying::pop(first, last);
        } else {
            for (; first != last; ++first) {
                const auto e = *first;
                destruction.publish(reg, e);
                auto it = sparse_set::find(e);
                underlying::pop(it, it + 1);
            }
        }
    }
    void pop_all() override {
        if (auto &reg = owner_or_assert(); !destruction.empty()) {
            if constexpr (std::is_same_v<Type, entity>) {
                for (std::size_t pos{}, last = this->m_head; pos < last; ++pos) destruction.publish(reg, this->m_packed[pos]);
            } else {
                for (auto e : static_cast<const sparse_set &>(*this)) {
                    if (underlying::storage_policy == deletion_policy::in_place) { if (!(e == tombstone)) destruction.publish(reg, e); }
                    else destruction.publish(reg, e);
                }
            }
        }
        underlying::pop_all();
    }
    sparse_set::iterator try_emplace(entity e, bool fb, const void *v = nullptr) override {
        const auto it = underlying::try_emplace(e, fb, v);
        if (auto &reg = owner_or_assert(); it != sparse_set::end()) construction.publish(reg, *it);
        return it;
    }
public:
    using registry_type = registry;
    void bind_registry(registry &r) noexcept override { owner = &r; }
    auto on_construct() noexcept { return sink{construction}; }
    auto on_update() noexcept { return sink{update}; }
    auto on_destroy() noexcept { return sink{destruction}; }
    template<typename... Args> decltype(auto) emplace(entity e, Args &&...args) {
        underlying::emplace(e, std::forward<Args>(args)...);
        construction.publish(owner_or_assert(), e);
        return this->get(e);
    }
    template<typename... Func> decltype(auto) patch(entity e, Func &&...func) {
        underlying::patch(e, std::forward<Func>(func)...);
        update.publish(owner_or_assert(), e);
        return this->get(e);
    }
    template<typename It, typename... Args> void insert(It first, It last, Args &&...args) {
        std::vector<entity> es(first, last);
        underlying::insert(first, last, std::forward<Args>(args)...);
        for (auto e : es) construction.publish(owner_or_assert(), e);
    }
};
template<> class sigh_mixin<entity> final : public basic_storage<entity> {
    registry *owner{};
    sigh<void(registry &, const entity)> construction, destruction, update;
protected:
    void pop(sparse_set::iterator first, sparse_set::iterator last) override {
        for (; first != last; ++first) {
            const auto e = *first;
            if (!destruction.empty()) destruction.publish(*owner, e);
            auto it = sparse_set::find(e);
            basic_storage<entity>::pop(it, it + 1);
        }
    }
public:
    void bind_registry(registry &r) noexcept override { owner = &r; }
    auto on_construct() noexcept { return sink{construction}; }
    auto on_update() noexcept { return sink{update}; }
    auto on_destroy() noexcept { return sink{destruction}; }
    template<typename... A> entity generate(A &&...a) {
        auto e = basic_storage<entity>::generate(std::forward<A>(a)...);
        if (!construction.empty()) construction.publish(*owner, e);
        return e;
    }
    template<typename... A> entity emplace(A &&...a) { return generate(std::forward<A>(a)...); }
};

// ------------------------------------------------------------------ views --
template<typename... T> struct get_t { explicit constexpr get_t() {} };
template<typename... T> inline constexpr get_t<T...> get{};
template<typename... T> struct exclude_t { explicit constexpr exclude_t() {} };
template<typename... T> inline constexpr exclude_t<T...> exclude{};
template<typename... T> struct owned_t { explicit constexpr owned_t() {} };

namespace internal {
template<typename T> struct storage_of { using type = sigh_mixin<T>; };
template<typename T> struct storage_of<const T> { using type = const sigh_mixin<T>; };
template<typename S> using element_of = constness_as_t<typename std::remove_const_t<S>::value_type, S>;

template<typename T, typename... S> constexpr std::size_t index_of_element() {
    constexpr bool same[] = {std::is_same_v<std::remove_const_t<T>, std::remove_const_t<typename std::remove_const_t<S>::value_type>>..., false};
    for (std::size_t i = 0; i < sizeof...(S); ++i) if (same[i]) return i;
    return sizeof...(S);
}
}

template<typename, typename, typename = void> class basic_view;
template<typename... Get, typename... Exclude>
class basic_view<get_t<Get...>, exclude_t<Exclude...>, void> {
    template<typename, typename, typename> friend class basic_view;
    std::tuple<Get *...> m_pools{};
    std::tuple<Exclude *...> m_filter{};
    static constexpr std::size_t get_size = sizeof...(Get);
    template<typename T> static constexpr std::size_t idx = internal::index_of_element<T, Get...>();

    const sparse_set *pool_at(std::size_t i) const {
        const sparse_set *r = nullptr; std::size_t k = 0;
        std::apply([&](auto *...p) { ((k++ == i ? void(r = p) : void()), ...); }, m_pools);
        return r;
    }
    const sparse_set *leading() const {
        const sparse_set *r = nullptr; bool any_null = false;
        std::apply([&](auto *...p) { ((p ? (((!r) || p->size() < r->size()) ? void(r = p) : void()) : void(any_null = true)), ...); }, m_pools);
        return any_null ? nullptr : r;
    }
    bool valid_entity(entity e, const sparse_set *lead) const {
        if (get_size == 1 && sizeof...(Exclude) == 0) return !(e == tombstone);
        return !(e == tombstone) && std::apply([&](auto *...p) { return ((static_cast<const sparse_set *>(p) == lead || p->contains(e)) && ...); }, m_pools)
            && std::apply([&](auto *...p) { return (!(p && p->contains(e)) && ...); }, m_filter);
    }
public:
    using entity_type = entity; using size_type = std::size_t; using common_type = sparse_set;
    struct iterator {
        using value_type = entity; using pointer = const entity *; using reference = const entity &; using difference_type = std::ptrdiff_t; using iterator_category = std::forward_iterator_tag;
        sparse_set::iterator it{}, last{}; const basic_view *owner_hint{}; basic_view view{}; const sparse_set *lead{};
        void seek() { while (it != last && !view.valid_entity(*it, lead)) ++it; }
        iterator &operator++() { ++it; seek(); return *this; }
        iterator operator++(int) { auto o = *this; ++*this; return o; }
        reference operator*() const { return *it; }
        pointer operator->() const { return &*it; }
        bool operator==(const iterator &o) const { return it == o.it; }
        bool operator!=(const iterator &o) const { return !(*this == o); }
    };
    basic_view() noexcept = default;
    basic_view(Get &...g, Exclude &...e) noexcept : m_pools{&g...}, m_filter{&e...} {}
    basic_view(std::tuple<Get *...> g, std::tuple<Exclude *...> e) noexcept : m_pools{g}, m_filter{e} {}

    iterator begin() const { iterator i; if (auto *l = leading()) { i.it = l->begin(0); i.last = l->end(0); i.view = *this; i.lead = l; i.seek(); } return i; }
    iterator end() const { iterator i; if (auto *l = leading()) { i.it = i.last = l->end(0); i.view = *this; i.lead = l; } return i; }
    bool empty() const noexcept { auto *l = leading(); return !l || l->empty(); }
    size_type size() const noexcept { auto *l = leading(); return l ? l->size() : 0; }
    size_type size_hint() const noexcept { return size(); }
    explicit operator bool() const noexcept { return leading() != nullptr; }
    const sparse_set *handle() const noexcept { return leading(); }
    entity front() const noexcept { auto it = begin(); return it != end() ? *it : entity{null}; }
    entity back() const noexcept { entity r = null; for (auto e : *this) r = e; return r; }
    iterator find(entity e) const noexcept { auto *l = leading(); iterator i = end(); if (l && contains(e)) i.it = l->find(e); return i; }
    template<typename T> auto *storage() const noexcept { return std::get<idx<T>>(m_pools); }
    template<std::size_t I = 0> auto *storage() const noexcept { return std::get<I>(m_pools); }
    template<std::size_t N = get_size, typename = std::enable_if_t<N == 1>> auto *operator->() const noexcept { return std::get<0>(m_pools); }
    template<typename Type> void use() noexcept {}
    bool contains(entity e) const noexcept {
        return std::apply([e](auto *...p) { return ((p && p->contains(e)) && ...); }, m_pools)
            && std::apply([e](auto *...p) { return (!(p && p->contains(e)) && ...); }, m_filter);
    }
    decltype(auto) operator[](entity e) const { return get(e); }
    template<typename... T> decltype(auto) get(const entity e) const {
        if constexpr (sizeof...(T) == 0) {
            return std::apply([e](auto *...p) { return std::tuple_cat(p->get_as_tuple(e)...); }, m_pools);
        } else if constexpr (sizeof...(T) == 1) {
            return (std::get<idx<T>>(m_pools)->get(e), ...);
        } else {
            return std::tuple_cat(std::get<idx<T>>(m_pools)->get_as_tuple(e)...);
        }
    }
    template<std::size_t I, std::size_t... O> decltype(auto) get(const entity e) const {
        if constexpr (sizeof...(O) == 0) return std::get<I>(m_pools)->get(e);
        else return std::tuple_cat(std::get<I>(m_pools)->get_as_tuple(e), std::get<O>(m_pools)->get_as_tuple(e)...);
    }
    template<typename Func> void each(Func func) const {
        for (auto it = begin(), last = end(); it != last; ++it) {
            const entity e = *it;
            auto args = std::apply([e](auto *...p) { return std::tuple_cat(p->get_as_tuple(e)...); }, m_pools);
            using args_t = decltype(args);
            using with_e = decltype(std::tuple_cat(std::declval<std::tuple<entity>>(), std::declval<args_t>()));
            if constexpr (is_applicable<Func, with_e>::value) std::apply(func, std::tuple_cat(std::make_tuple(e), args));
            else std::apply(func, args);
        }
    }
    struct each_iterator {
        iterator it;
        using value_type = decltype(std::tuple_cat(std::declval<std::tuple<entity>>(), std::declval<Get &>().get_as_tuple(entity{})...));
        using reference = value_type; using difference_type = std::ptrdiff_t; using pointer = void; using iterator_category = std::input_iterator_tag;
        each_iterator &operator++() { ++it; return *this; }
        each_iterator operator++(int) { auto o = *this; ++it; return o; }
        reference operator*() const { const entity e = *it; return std::apply([e](auto *...p) { return std::tuple_cat(std::make_tuple(e), p->get_as_tuple(e)...); }, it.view.m_pools); }
        bool operator==(const each_iterator &o) const { return it == o.it; }
        bool operator!=(const each_iterator &o) const { return !(*this == o); }
    };
    iterable_adaptor<each_iterator> each() const { return {each_iterator{begin()}, each_iterator{end()}}; }
    template<typename... OGet, typename... OExclude> auto operator|(const basic_view<get_t<OGet...>, exclude_t<OExclude...>> &o) const {
        return basic_view<get_t<Get..., OGet...>, exclude_t<Exclude..., OExclude...>>{std::tuple_cat(m_pools, o.m_pools), std::tuple_cat(m_filter, o.m_filter)};
    }
private:
    template<typename F, typename T> struct is_applicable : std::false_type {};
    template<typename F, typename... A> struct is_applicable<F, std::tuple<A...>> : std::is_invocable<F, A...> {};
};

// --------------------------------------------------------------- registry --
class registry_context {
    std::map<id_type, any> m_ctx; // deterministic order
public:
    explicit registry_context(const std::allocator<entity> & = {}) {}
    template<typename T, typename... A> T &emplace_as(id_type id, A &&...a) {
        auto it = m_ctx.find(id);
        if (it == m_ctx.end()) it = m_ctx.emplace(id, any{std::in_place_type<T>, std::forward<A>(a)...}).first;
        return any_cast<T &>(it->second);
    }
    template<typename T, typename... A> T &emplace(A &&...a) { return emplace_as<T>(type_id<T>().hash(), std::forward<A>(a)...); }
    template<typename T> T &insert_or_assign(id_type id, T &&v) {
        using U = std::remove_cv_t<std::remove_reference_t<T>>;
        return any_cast<U &>(m_ctx[id] = any{std::forward<T>(v)});
    }
    template<typename T> auto &insert_or_assign(T &&v) { return insert_or_assign(type_id<T>().hash(), std::forward<T>(v)); }
    template<typename T> bool erase(id_type id = type_id<T>().hash()) { auto it = m_ctx.find(id); if (it == m_ctx.end()) return false; any tmp = std::move(it->second); m_ctx.erase(it); return true; }
    template<typename T> const T &get(id_type id = type_id<T>().hash()) const { auto it = m_ctx.find(id); ENTT_ASSERT(it != m_ctx.end(), "Invalid context element"); return any_cast<const T &>(it->second); }
    template<typename T> T &get(id_type id = type_id<T>().hash()) { auto it = m_ctx.find(id); ENTT_ASSERT(it != m_ctx.end(), "Invalid context element"); return any_cast<T &>(it->second); }
    template<typename T> const T *find(id_type id = type_id<T>().hash()) const { auto it = m_ctx.find(id); return it == m_ctx.end() ? nullptr : any_cast<T>(&it->second); }
    template<typename T> T *find(id_type id = type_id<T>().hash()) { auto it = m_ctx.find(id); return it == m_ctx.end() ? nullptr : any_cast<T>(&it->second); }
    template<typename T> bool contains(id_type id = type_id<T>().hash()) const { return m_ctx.find(id) != m_ctx.end(); }
    void clear() { m_ctx.clear(); }
};

class registry {
    // Insertion ordered pools.
    std::vector<std::pair<id_type, std::shared_ptr<sparse_set>>> m_pools;
    std::unordered_map<id_type, std::size_t> m_pool_index;
    sigh_mixin<entity> m_entities;
    registry_context m_vars{}; // goes first: context objects hold connections to the pools' signals

    sparse_set *find_pool(id_type id) const { auto it = m_pool_index.find(id); return it == m_pool_index.end() ? nullptr : m_pools[it->second].second.get(); }
    template<typename T> sigh_mixin<T> &assure(id_type id = type_hash<T>::value()) {
        static_assert(std::is_same_v<T, std::decay_t<T>>, "Non-decayed types not allowed");
        if constexpr (std::is_same_v<T, entity>) { return m_entities; }
        else {
            if (auto *p = find_pool(id)) return static_cast<sigh_mixin<T> &>(*p);
            auto sp = std::make_shared<sigh_mixin<T>>();
            sp->bind_registry(*this);
            m_pool_index.emplace(id, m_pools.size());
            m_pools.emplace_back(id, sp);
            return *sp;
        }
    }
    template<typename T> const sigh_mixin<T> *assure(id_type id = type_hash<T>::value()) const {
        if constexpr (std::is_same_v<T, entity>) { return &m_entities; }
        else return static_cast<const sigh_mixin<T> *>(find_pool(id));
    }
    void rebind() { m_entities.bind_registry(*this); for (auto &p : m_pools) p.second->bind_registry(*this); }
public:
    using allocator_type = std::allocator<entity>;
    using entity_type = entity; using value_type = entity; using version_type = std::uint16_t; using size_type = std::size_t;
    using common_type = sparse_set; using context = registry_context;
    template<typename T> using storage_for_type = typename internal::storage_of<T>::type;

    registry() { rebind(); }
    explicit registry(size_type) : registry() {}
    registry(const registry &) = delete;
    registry(registry &&o) noexcept : m_vars{std::move(o.m_vars)}, m_pools{std::move(o.m_pools)}, m_pool_index{std::move(o.m_pool_index)} {
        static_cast<sparse_set &>(m_entities) = std::move(static_cast<sparse_set &>(o.m_entities)); rebind();
    }
    registry &operator=(const registry &) = delete;
    ~registry() = default;

    context &ctx() noexcept { return m_vars; }
    const context &ctx() const noexcept { return m_vars; }

    template<typename T> sigh_mixin<T> &storage(id_type id = type_hash<T>::value()) { return assure<T>(id); }
    template<typename T> const sigh_mixin<T> *storage(id_type id = type_hash<T>::value()) const { return assure<T>(id); }
    sparse_set *storage(id_type id) { return find_pool(id); }
    const sparse_set *storage(id_type id) const { return find_pool(id); }
    auto &storage() = delete;

    bool valid(entity e) const { return e != null && m_entities.contains(e); }
    version_type current(entity e) const { return m_entities.current(e); }
    entity create() { return m_entities.generate(); }
    entity create(entity hint) { return m_entities.generate(hint); }
    template<typename It> void create(It first, It last) { for (; first != last; ++first) *first = create(); }
    version_type destroy(entity e) {
        for (auto pos = m_pools.size(); pos != 0u; --pos) m_pools[pos - 1].second->remove(e);
        m_entities.erase(e);
        return m_entities.current(e);
    }
    template<typename It> void destroy(It first, It last) { for (; first != last; ++first) destroy(*first); }

    template<typename Type, typename... Args> decltype(auto) emplace(const entity_type e, Args &&...args) {
        ENTT_ASSERT(valid(e), "Invalid entity");
        return assure<Type>().emplace(e, std::forward<Args>(args)...);
    }
    template<typename Type, typename It> void insert(It first, It last, const Type &v = {}) { assure<Type>().insert(first, last, v); }
    template<typename Type, typename EIt, typename CIt, typename = std::enable_if_t<std::is_same_v<typename std::iterator_traits<CIt>::value_type, Type>>>
    void insert(EIt first, EIt last, CIt from) { assure<Type>().insert(first, last, from); }
    template<typename Type, typename... Args> decltype(auto) emplace_or_replace(const entity_type e, Args &&...args) {
        auto &cpool = assure<Type>();
        ENTT_ASSERT(valid(e), "Invalid entity");
        if (cpool.contains(e)) return cpool.patch(e, [&args...](auto &...curr) { ((curr = make<Type>(std::forward<Args>(args)...)), ...); });
        return cpool.emplace(e, std::forward<Args>(args)...);
    }
    template<typename Type, typename... Func> decltype(auto) patch(const entity_type e, Func &&...func) { return assure<Type>().patch(e, std::forward<Func>(func)...); }
    template<typename Type, typename... Args> decltype(auto) replace(const entity_type e, Args &&...args) {
        return patch<Type>(e, [&args...](auto &...curr) { ((curr = make<Type>(std::forward<Args>(args)...)), ...); });
    }
    template<typename Type, typename... Other> size_type remove(const entity_type e) { return (size_type(assure<Type>().remove(e)) + ... + size_type(assure<Other>().remove(e))); }
    template<typename Type, typename... Other, typename It> size_type remove(It first, It last) {
        size_type c{}; std::vector<entity> es(first, last);
        for (auto e : es) c += remove<Type, Other...>(e);
        return c;
    }
    template<typename Type, typename... Other> void erase(const entity_type e) { erase_one<Type, Other...>(e); }
    template<typename Type, typename... Other, typename It> void erase(It first, It last) { std::vector<entity> es(first, last); for (auto e : es) erase_one<Type, Other...>(e); }
    template<typename Func> void erase_if(const entity_type e, Func func) {
        for (auto pos = m_pools.size(); pos; --pos) if (auto &p = m_pools[pos - 1]; p.second->contains(e) && func(p.first, *p.second)) p.second->erase(e);
    }
    template<typename... Type> void compact() { if constexpr (sizeof...(Type) == 0) { for (auto &p : m_pools) p.second->compact(); } else (assure<Type>().compact(), ...); }
    template<typename... Type> bool all_of(const entity_type e) const {
        return ((static_cast<const sparse_set *>(assure<std::remove_const_t<Type>>()) && assure<std::remove_const_t<Type>>()->contains(e)) && ...);
    }
    template<typename... Type> bool any_of(const entity_type e) const {
        return ((static_cast<const sparse_set *>(assure<std::remove_const_t<Type>>()) && assure<std::remove_const_t<Type>>()->contains(e)) || ...);
    }
    template<typename... Type> decltype(auto) get(const entity_type e) const {
        if constexpr (sizeof...(Type) == 1) { return get_const<std::remove_const_t<Type>...>(e); }
        else return std::forward_as_tuple(get<Type>(e)...);
    }
    template<typename... Type> decltype(auto) get(const entity_type e) {
        if constexpr (sizeof...(Type) == 1) return (static_cast<storage_for_type<Type> &>(assure<std::remove_const_t<Type>>()).get(e), ...);
        else return std::forward_as_tuple(get<Type>(e)...);
    }
    template<typename Type, typename... Args> decltype(auto) get_or_emplace(const entity_type e, Args &&...args) {
        auto &cpool = assure<Type>();
        return cpool.contains(e) ? cpool.get(e) : cpool.emplace(e, std::forward<Args>(args)...);
    }
    template<typename... Type> auto try_get(const entity_type e) const {
        if constexpr (sizeof...(Type) == 1) { const auto *p = assure<std::remove_const_t<Type>...>(); return (p && p->contains(e)) ? std::addressof(p->get(e)) : nullptr; }
        else return std::make_tuple(try_get<Type>(e)...);
    }
    template<typename... Type> auto try_get(const entity_type e) {
        if constexpr (sizeof...(Type) == 1) { using P = decltype(std::addressof(get<Type...>(e))); auto &p = assure<std::remove_const_t<Type>...>(); return p.contains(e) ? static_cast<P>(std::addressof(p.get(e))) : static_cast<P>(nullptr); }
        else return std::make_tuple(try_get<Type>(e)...);
    }
    template<typename... Type> void clear() {
        if constexpr (sizeof...(Type) == 0) {
            for (auto pos = m_pools.size(); pos; --pos) m_pools[pos - 1].second->clear();
            while (m_entities.in_use()) { auto e = m_entities.data()[m_entities.in_use() - 1]; m_entities.erase(e); }
        } else (assure<Type>().clear(), ...);
    }
    bool orphan(const entity_type e) const { return std::none_of(m_pools.begin(), m_pools.end(), [e](auto &p) { return p.second->contains(e); }); }
    template<typename T> auto on_construct(id_type id = type_hash<T>::value()) { return assure<T>(id).on_construct(); }
    template<typename T> auto on_update(id_type id = type_hash<T>::value()) { return assure<T>(id).on_update(); }
    template<typename T> auto on_destroy(id_type id = type_hash<T>::value()) { return assure<T>(id).on_destroy(); }

    template<typename Type, typename... Other, typename... Exclude>
    basic_view<get_t<storage_for_type<const Type>, storage_for_type<const Other>...>, exclude_t<storage_for_type<const Exclude>...>>
    view(exclude_t<Exclude...> = exclude_t<>{}) const {
        using V = basic_view<get_t<storage_for_type<const Type>, storage_for_type<const Other>...>, exclude_t<storage_for_type<const Exclude>...>>;
        return V{std::tuple<storage_for_type<const Type> *, storage_for_type<const Other> *...>{assure<std::remove_const_t<Type>>(), assure<std::remove_const_t<Other>>()...},
                 std::tuple<storage_for_type<const Exclude> *...>{assure<std::remove_const_t<Exclude>>()...}};
    }
    template<typename Type, typename... Other, typename... Exclude>
    basic_view<get_t<storage_for_type<Type>, storage_for_type<Other>...>, exclude_t<storage_for_type<Exclude>...>>
    view(exclude_t<Exclude...> = exclude_t<>{}) {
        using V = basic_view<get_t<storage_for_type<Type>, storage_for_type<Other>...>, exclude_t<storage_for_type<Exclude>...>>;
        return V{std::tuple<storage_for_type<Type> *, storage_for_type<Other> *...>{&assure<std::remove_const_t<Type>>(), &assure<std::remove_const_t<Other>>()...},
                 std::tuple<storage_for_type<Exclude> *...>{&assure<std::remove_const_t<Exclude>>()...}};
    }
private:
    template<typename T, typename... A> static T make(A &&...a) {
        if constexpr (std::is_aggregate_v<T> && (sizeof...(A) != 0u || !std::is_default_constructible_v<T>)) return T{std::forward<A>(a)...};
        else return T(std::forward<A>(a)...);
    }
    template<typename T> decltype(auto) get_const(entity e) const { auto *p = assure<T>(); ENTT_ASSERT(p, "Missing pool"); return p->get(e); }
    template<typename Type> void erase_one(entity e) { assure<Type>().erase(e); }
    template<typename Type, typename Next, typename... Other> void erase_one(entity e) { erase_one<Type>(e); erase_one<Next, Other...>(e); }
};
template<typename E = entity> using basic_registry = registry;

// ------------------------------------------------------------------- meta --
struct as_is_t {}; struct as_ref_t {}; struct as_cref_t {};
class meta_any; class meta_type; class meta_data; class meta_handle; class meta_sequence_container; class meta_associative_container;

namespace internal {
struct meta_type_node;
struct seq_vtable {
    std::size_t (*size)(const void *); void *(*at)(void *, std::size_t); bool (*erase)(void *, std::size_t); bool (*clear)(void *); bool (*resize)(void *, std::size_t);
    const meta_type_node *(*value_node)();
};
struct assoc_vtable {
    std::size_t (*size)(const void *);
    void (*each)(void *, const std::function<void(const void *, void *)> &);
    bool (*erase)(void *, const void *);
    const meta_type_node *(*key_node)(); const meta_type_node *(*mapped_node)();
};
struct meta_data_node {
    const meta_type_node *(*type)(); void *(*ref)(void *);
};
struct meta_type_node {
    const type_info *info; id_type id;
    void (*assign)(void *, const void *);
    void *(*copy)(const void *); void (*destroy)(void *);
    const seq_vtable *seq; const assoc_vtable *assoc;
    std::vector<std::pair<id_type, meta_data_node>> data; bool registered = false;
};
inline std::unordered_map<id_type, meta_type_node *> &meta_ctx() { static std::unordered_map<id_type, meta_type_node *> m; return m; }

template<typename T> struct seq_traits : std::false_type {};
template<typename T, typename A> struct seq_traits<std::vector<T, A>> : std::true_type { using elem = T; static constexpr bool dyn = true; };
template<typename T, typename A> struct seq_traits<std::deque<T, A>> : std::true_type { using elem = T; static constexpr bool dyn = true; };
template<typename T, std::size_t N> struct seq_traits<std::array<T, N>> : std::true_type { using elem = T; static constexpr bool dyn = false; };
template<typename T> struct assoc_traits : std::false_type {};
template<typename K, typename V, typename... R> struct assoc_traits<std::map<K, V, R...>> : std::true_type { using key = K; using mapped = V; };
template<typename K, typename V, typename... R> struct assoc_traits<std::unordered_map<K, V, R...>> : std::true_type { using key = K; using mapped = V; };

template<typename T> const meta_type_node *meta_node();
template<typename T> const seq_vtable *make_seq() {
    if constexpr (seq_traits<T>::value) {
        using V = typename seq_traits<T>::elem;
        static const seq_vtable vt{
            [](const void *p) -> std::size_t { return static_cast<const T *>(p)->size(); },
            [](void *p, std::size_t i) -> void * { return &(*static_cast<T *>(p))[i]; },
            [](void *p, std::size_t i) -> bool { if constexpr (seq_traits<T>::dyn) { auto &c = *static_cast<T *>(p); c.erase(c.begin() + std::ptrdiff_t(i)); return true; } else return false; },
            [](void *p) -> bool { if constexpr (seq_traits<T>::dyn) { static_cast<T *>(p)->clear(); return true; } else return false; },
            [](void *p, std::size_t n) -> bool { if constexpr (seq_traits<T>::dyn && std::is_default_constructible_v<V>) { static_cast<T *>(p)->resize(n); return true; } else return false; },
            [] { return meta_node<V>(); }};
        return &vt;
    } else return nullptr;
}
template<typename T> const assoc_vtable *make_assoc() {
    if constexpr (assoc_traits<T>::value) {
        using K = typename assoc_traits<T>::key; using M = typename assoc_traits<T>::mapped;
        static const assoc_vtable vt{
            [](const void *p) -> std::size_t { return static_cast<const T *>(p)->size(); },
            [](void *p, const std::function<void(const void *, void *)> &f) { for (auto &kv : *static_cast<T *>(p)) f(&kv.first, &kv.second); },
            [](void *p, const void *k) -> bool { return static_cast<T *>(p)->erase(*static_cast<const K *>(k)) != 0; },
            [] { return meta_node<K>(); }, [] { return meta_node<M>(); }};
        return &vt;
    } else return nullptr;
}
template<typename T> meta_type_node &meta_node_storage() {
    static meta_type_node node = [] {
        meta_type_node n{};
        n.info = &type_id<T>(); n.id = n.info->hash();
        n.assign = [](void *d, const void *s) { if constexpr (std::is_copy_assignable_v<T>) *static_cast<T *>(d) = *static_cast<const T *>(s); };
        n.copy = [](const void *s) -> void * { if constexpr (std::is_copy_constructible_v<T>) return new T(*static_cast<const T *>(s)); else return nullptr; };
        n.destroy = [](void *p) { delete static_cast<T *>(p); };
        n.seq = make_seq<T>(); n.assoc = make_assoc<T>();
        return n;
    }();
    return node;
}
template<typename T> const meta_type_node *meta_node() { return &meta_node_storage<T>(); }
}

class meta_type {
    const internal::meta_type_node *m_node{};
public:
    meta_type() = default;
    explicit meta_type(const internal::meta_type_node *n) : m_node{n} {}
    explicit operator bool() const noexcept { return m_node != nullptr; }
    id_type id() const noexcept { return m_node ? m_node->id : id_type{}; }
    const type_info &info() const noexcept { return m_node ? *m_node->info : type_id<void>(); }
    bool is_sequence_container() const noexcept { return m_node && m_node->seq; }
    bool is_associative_container() const noexcept { return m_node && m_node->assoc; }
    inline std::vector<std::pair<id_type, meta_data>> data() const;
    inline meta_data data(id_type) const;
    bool operator==(const meta_type &o) const noexcept { return (!m_node && !o.m_node) || (m_node && o.m_node && *m_node->info == *o.m_node->info); }
    bool operator!=(const meta_type &o) const noexcept { return !(*this == o); }
    const internal::meta_type_node *node() const { return m_node; }
};

class meta_any {
    friend class meta_handle;
    const internal::meta_type_node *m_node{}; void *m_ptr{}; bool m_owned{}; 
public:
    meta_any() = default;
    meta_any(const internal::meta_type_node *n, void *p, bool owned) : m_node{n}, m_ptr{p}, m_owned{owned} {}
    template<typename T, typename D = std::decay_t<T>, typename = std::enable_if_t<!std::is_same_v<D, meta_any>>>
    meta_any(T &&v) : m_node{internal::meta_node<D>()}, m_ptr{new D(std::forward<T>(v))}, m_owned{true} {}
    meta_any(const meta_any &o) : m_node{o.m_node}, m_ptr{o.m_owned ? o.m_node->copy(o.m_ptr) : o.m_ptr}, m_owned{o.m_owned} {}
    meta_any(meta_any &&o) noexcept : m_node{std::exchange(o.m_node, nullptr)}, m_ptr{std::exchange(o.m_ptr, nullptr)}, m_owned{std::exchange(o.m_owned, false)} {}
    meta_any &operator=(meta_any o) noexcept { std::swap(m_node, o.m_node); std::swap(m_ptr, o.m_ptr); std::swap(m_owned, o.m_owned); return *this; }
    ~meta_any() { if (m_owned && m_ptr) m_node->destroy(m_ptr); }
    meta_type type() const noexcept { return meta_type{m_node}; }
    explicit operator bool() const noexcept { return m_ptr != nullptr; }
    const void *data() const noexcept { return m_ptr; }
    void *data() noexcept { return m_ptr; }
    template<typename T> T cast() const {
        using U = std::remove_cv_t<std::remove_reference_t<T>>;
        ENTT_ASSERT(m_node && *m_node->info == type_id<U>(), "Invalid instance");
        return static_cast<T>(*static_cast<U *>(m_ptr));
    }
    template<typename T> const T *try_cast() const { return m_node && *m_node->info == type_id<T>() ? static_cast<T *>(m_ptr) : nullptr; }
    template<typename T> T *try_cast() { return m_node && *m_node->info == type_id<T>() ? static_cast<T *>(m_ptr) : nullptr; }
    inline meta_sequence_container as_sequence_container() const noexcept;
    inline meta_associative_container as_associative_container() const noexcept;
    meta_any as_ref() const { return meta_any{m_node, m_ptr, false}; }
    bool assign(const meta_any &o) { if (m_node && o.m_node && *m_node->info == *o.m_node->info) { m_node->assign(m_ptr, o.m_ptr); return true; } return false; }
};

class meta_handle {
    meta_any m_any;
public:
    meta_handle() = default;
    meta_handle(meta_any &v) : m_any{v.as_ref()} {}
    meta_handle(const meta_any &v) : m_any{v.as_ref()} {}
    template<typename T, typename = std::enable_if_t<!std::is_same_v<std::decay_t<T>, meta_handle> && !std::is_same_v<std::decay_t<T>, meta_any>>>
    meta_handle(T &v) : m_any{internal::meta_node<std::remove_const_t<T>>(), const_cast<void *>(static_cast<const void *>(&v)), false} {}
    explicit operator bool() const noexcept { return static_cast<bool>(m_any); }
    meta_any *operator->() { return &m_any; }
    const meta_any *operator->() const { return &m_any; }
};

class meta_data {
    internal::meta_data_node m_node{};
public:
    meta_data() = default;
    explicit meta_data(internal::meta_data_node n) : m_node{n} {}
    explicit operator bool() const noexcept { return m_node.type != nullptr; }
    meta_type type() const noexcept { return meta_type{m_node.type()}; }
    meta_any get(meta_handle h) const { return meta_any{m_node.type(), m_node.ref(h->data()), false}; }
    template<typename T> bool set(meta_handle h, T &&v) const { meta_any dst = get(std::move(h)); meta_any src{std::forward<T>(v)}; return dst.assign(src); }
    bool is_const() const noexcept { return false; }
    bool is_static() const noexcept { return false; }
};
inline std::vector<std::pair<id_type, meta_data>> meta_type::data() const {
    std::vector<std::pair<id_type, meta_data>> r;
    if (m_node) for (auto &p : m_node->data) r.emplace_back(p.first, meta_data{p.second});
    return r;
}
inline meta_data meta_type::data(id_type id) const {
    if (m_node) for (auto &p : m_node->data) if (p.first == id) return meta_data{p.second};
    return {};
}

class meta_sequence_container {
    const internal::seq_vtable *m_vt{}; void *m_ptr{};
public:
    using size_type = std::size_t;
    // As in EnTT, dereferencing yields a meta_any by value: assigning to it does
    // not assign to the element.
    struct iterator {
        using value_type = meta_any; using reference = meta_any; using pointer = void; using difference_type = std::ptrdiff_t; using iterator_category = std::input_iterator_tag;
        const internal::seq_vtable *vt{}; void *ptr{}; std::size_t pos{};
        iterator &operator++() { ++pos; return *this; }
        iterator operator++(int) { auto o = *this; ++pos; return o; }
        iterator &operator--() { --pos; return *this; }
        meta_any operator*() const { return meta_any{vt->value_node(), vt->at(ptr, pos), false}; }
        explicit operator bool() const { return vt != nullptr; }
        bool operator==(const iterator &o) const { return pos == o.pos; }
        bool operator!=(const iterator &o) const { return pos != o.pos; }
    };
    meta_sequence_container() = default;
    meta_sequence_container(const internal::seq_vtable *v, void *p) : m_vt{v}, m_ptr{p} {}
    meta_type value_type() const { return meta_type{m_vt ? m_vt->value_node() : nullptr}; }
    size_type size() const { return m_vt->size(m_ptr); }
    bool resize(size_type n) { return m_vt->resize(m_ptr, n); }
    bool clear() { return m_vt->clear(m_ptr); }
    iterator begin() { return {m_vt, m_ptr, 0}; }
    iterator end() { return {m_vt, m_ptr, size()}; }
    iterator erase(iterator it) { if (m_vt->erase(m_ptr, it.pos)) return it; return {}; }
    meta_any operator[](size_type i) { return meta_any{m_vt->value_node(), m_vt->at(m_ptr, i), false}; }
    explicit operator bool() const { return m_vt != nullptr; }
};
class meta_associative_container {
    const internal::assoc_vtable *m_vt{}; void *m_ptr{};
public:
    meta_associative_container() = default;
    meta_associative_container(const internal::assoc_vtable *v, void *p) : m_vt{v}, m_ptr{p} {}
    meta_type key_type() const { return meta_type{m_vt ? m_vt->key_node() : nullptr}; }
    meta_type mapped_type() const { return meta_type{m_vt ? m_vt->mapped_node() : nullptr}; }
    std::size_t size() const { return m_vt->size(m_ptr); }
    bool erase(const meta_any &k) { return m_vt->erase(m_ptr, k.data()); }
    using item = std::pair<meta_any, meta_any>;
    struct iterator {
        using value_type = item; using reference = item; using pointer = void; using difference_type = std::ptrdiff_t; using iterator_category = std::input_iterator_tag;
        std::shared_ptr<std::vector<item>> items; std::size_t pos{};
        iterator &operator++() { ++pos; return *this; }
        item operator*() const { return (*items)[pos]; }
        bool operator==(const iterator &o) const { return pos == o.pos; }
        bool operator!=(const iterator &o) const { return pos != o.pos; }
    };
    iterator begin() {
        auto v = std::make_shared<std::vector<item>>();
        m_vt->each(m_ptr, [&](const void *k, void *m) {
            auto *kn = m_vt->key_node();
            v->emplace_back(meta_any{kn, kn->copy(k), true}, meta_any{m_vt->mapped_node(), m, false});
        });
        return {v, 0};
    }
    iterator end() { return {nullptr, size()}; }
    explicit operator bool() const { return m_vt != nullptr; }
};
inline meta_sequence_container meta_any::as_sequence_container() const noexcept { return m_node && m_node->seq ? meta_sequence_container{m_node->seq, m_ptr} : meta_sequence_container{}; }
inline meta_associative_container meta_any::as_associative_container() const noexcept { return m_node && m_node->assoc ? meta_associative_container{m_node->assoc, m_ptr} : meta_associative_container{}; }

// resolve<T>() yields a (possibly empty) type for any T; resolve(id) only for
// types registered through a factory.
template<typename T> meta_type resolve() noexcept { return meta_type{internal::meta_node<std::remove_cv_t<std::remove_reference_t<T>>>()}; }
inline meta_type resolve(id_type id) noexcept { auto &m = internal::meta_ctx(); auto it = m.find(id); return it == m.end() ? meta_type{} : meta_type{it->second}; }
inline meta_type resolve(const type_info &i) noexcept { return resolve(i.hash()); }

template<typename Type> class meta_factory {
    template<auto Data> struct member_of;
    template<typename C, typename M, M C::*Data> struct member_of<Data> { using type = M; };
public:
    meta_factory() noexcept { auto &n = internal::meta_node_storage<Type>(); n.registered = true; internal::meta_ctx()[n.id] = &n; }
    meta_factory type(id_type) noexcept { return *this; }
    template<auto Data, typename Policy = as_is_t> meta_factory data(id_type id) noexcept {
        using M = std::remove_reference_t<decltype(std::declval<Type &>().*Data)>;
        internal::meta_data_node d{[] { return internal::meta_node<std::remove_const_t<M>>(); }, [](void *p) -> void * { return const_cast<void *>(static_cast<const void *>(&(static_cast<Type *>(p)->*Data))); }};
        auto &v = internal::meta_node_storage<Type>().data;
        for (auto &p : v) if (p.first == id) { p.second = d; return *this; }
        v.emplace_back(id, d);
        return *this;
    }
};
template<typename T> [[nodiscard]] meta_factory<T> meta() noexcept { return {}; }
inline void meta_reset() noexcept { for (auto &p : internal::meta_ctx()) p.second->data.clear(); internal::meta_ctx().clear(); }

} // namespace entt

#endif // VERIF_MINI_ENTT_HPP
