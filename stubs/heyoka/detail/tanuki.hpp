#ifndef KV_STUB_TANUKI_HPP
#define KV_STUB_TANUKI_HPP
// Stand-in for heyoka's type-erasure header, which is not installed here: the part of its interface that kep3 uses,
// with the same observable semantics (value semantics, dispatch through IFace::impl<Base, Holder, T>).  It exists so
// that kep3's own sources can be lowered for analysis.
#include <concepts>
#include <memory>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <utility>
namespace tanuki
{
template <typename DefaultValueType = void, typename RefIFace = void>
struct config {
    using default_t = DefaultValueType;
    using ref_t = RefIFace;
    bool pointer_interface = true;
};
template <typename IFace>
struct value_iface : public IFace {
    virtual ~value_iface() = default;
    virtual value_iface *_clone() const = 0;
    virtual const void *_ptr() const = 0;
    virtual std::type_index _type() const = 0;
};
template <typename T, typename IFace>
struct holder;
template <typename T, typename IFace>
using holder_base = typename IFace::template impl<value_iface<IFace>, holder<T, IFace>, T>;
template <typename T, typename IFace>
struct holder final : public holder_base<T, IFace> {
    T m_value;
    holder() : m_value() {}
    template <typename U>
    explicit holder(std::in_place_t, U &&x) : m_value(std::forward<U>(x))
    {
    }
    value_iface<IFace> *_clone() const final
    {
        return new holder(std::in_place, m_value);
    }
    const void *_ptr() const final
    {
        return &m_value;
    }
    std::type_index _type() const final
    {
        return typeid(T);
    }
};
template <typename Holder, typename P>
const auto &getval(const P *p)
{
    return static_cast<const Holder *>(p)->m_value;
}
template <typename Holder, typename P>
auto &getval(P *p)
{
    return static_cast<Holder *>(p)->m_value;
}
template <typename IFace, auto Cfg>
class wrap;
template <typename T>
inline constexpr bool is_wrap = false;
template <typename IFace, auto Cfg>
inline constexpr bool is_wrap<wrap<IFace, Cfg>> = true;
template <typename IFace, auto Cfg>
class wrap : public decltype(Cfg)::ref_t::template impl<wrap<IFace, Cfg>>
{
    using def_t = typename decltype(Cfg)::default_t;

public:
    value_iface<IFace> *m_p;
    wrap() : m_p(new holder<def_t, IFace>()) {}
    template <typename T>
        requires(!is_wrap<std::remove_cvref_t<T>>)
    explicit wrap(T &&x) : m_p(new holder<std::remove_cvref_t<T>, IFace>(std::in_place, std::forward<T>(x)))
    {
    }
    wrap(const wrap &o) : m_p(o.m_p->_clone()) {}
    wrap(wrap &&o) noexcept : m_p(o.m_p)
    {
        o.m_p = nullptr;
    }
    wrap &operator=(const wrap &o)
    {
        if (this != &o) {
            auto *n = o.m_p->_clone();
            delete m_p;
            m_p = n;
        }
        return *this;
    }
    wrap &operator=(wrap &&o) noexcept
    {
        std::swap(m_p, o.m_p);
        return *this;
    }
    ~wrap()
    {
        delete m_p;
    }
    template <typename Ar>
    void serialize(Ar &, unsigned)
    {
    }
};
template <typename IFace, auto Cfg>
const IFace *iface_ptr(const wrap<IFace, Cfg> &w)
{
    return w.m_p;
}
template <typename IFace, auto Cfg>
IFace *iface_ptr(wrap<IFace, Cfg> &w)
{
    return w.m_p;
}
template <typename IFace, auto Cfg>
std::type_index value_type_index(const wrap<IFace, Cfg> &w)
{
    return w.m_p->_type();
}
template <typename T, typename IFace, auto Cfg>
const T *value_ptr(const wrap<IFace, Cfg> &w)
{
    return w.m_p->_type() == std::type_index(typeid(T)) ? static_cast<const T *>(w.m_p->_ptr()) : nullptr;
}
template <typename T, typename IFace, auto Cfg>
T *value_ptr(wrap<IFace, Cfg> &w)
{
    return const_cast<T *>(value_ptr<T>(static_cast<const wrap<IFace, Cfg> &>(w)));
}
template <typename T, typename IFace, auto Cfg>
bool value_isa(const wrap<IFace, Cfg> &w)
{
    return value_ptr<T>(w) != nullptr;
}
template <typename IFace, auto Cfg>
bool is_valid(const wrap<IFace, Cfg> &w)
{
    return w.m_p != nullptr;
}
} // namespace tanuki
#define TANUKI_REF_IFACE_MEMFUN(name)                                                                                  \
    template <typename... KvArgs>                                                                                      \
    auto name(KvArgs &&...args) const                                                                                  \
    {                                                                                                                  \
        return iface_ptr(*static_cast<const Wrap *>(this))->name(std::forward<KvArgs>(args)...);                       \
    }
#define TANUKI_S11N_WRAP_EXPORT_KEY(...)
#define TANUKI_S11N_WRAP_EXPORT_KEY2(...)
#define TANUKI_S11N_WRAP_EXPORT_IMPLEMENT(...)
#define TANUKI_S11N_WRAP_EXPORT(...)
#endif
