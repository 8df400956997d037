// Stand-in for Boost's binary archives, for analysis only: a flat byte buffer.  Whatever is saved is laid down byte by
// byte in the order visited, and loading reads it back in the order visited, as a binary archive without tracking does.
#pragma once
#include <array>
#include <boost/mpl/bool.hpp>
#include <boost/serialization/access.hpp>
#include <cstddef>
#include <cstring>
#include <memory>
#include <optional>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace boost::archive
{
namespace kv_detail
{
template <typename T>
struct tag {
};
template <typename A, typename T>
concept kv_free = requires(A &a, T &t) { serialize(a, t, 0u); };
} // namespace kv_detail

template <typename Derived, bool Save>
class kv_archive
{
public:
    using is_saving = boost::mpl::bool_<Save>;
    using is_loading = boost::mpl::bool_<!Save>;
    unsigned char *kv_buf = nullptr;
    std::size_t kv_pos = 0;

    explicit kv_archive(unsigned char *b = nullptr) : kv_buf(b) {}
    template <typename T>
    Derived &operator&(T &&x)
    {
        kv_item(const_cast<std::remove_cv_t<std::remove_reference_t<T>> &>(x));
        return static_cast<Derived &>(*this);
    }
    template <typename T>
    Derived &operator<<(T &&x)
        requires Save
    {
        return *this & std::forward<T>(x);
    }
    template <typename T>
    Derived &operator>>(T &&x)
        requires(!Save)
    {
        return *this & std::forward<T>(x);
    }
    template <typename T>
    void register_type(T * = nullptr)
    {
    }
    unsigned get_library_version() const { return 0; }

private:
    template <typename T>
    void kv_raw(T &x)
    {
        if constexpr (Save) {
            std::memcpy(kv_buf + kv_pos, &x, sizeof(T));
        } else {
            std::memcpy(&x, kv_buf + kv_pos, sizeof(T));
        }
        kv_pos += sizeof(T);
    }
    template <typename T>
    void kv_item(T &x)
    {
        if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T>) {
            kv_raw(x);
        } else {
            kv_class(x);
        }
    }
    template <typename T, std::size_t N>
    void kv_item(T (&x)[N])
    {
        for (auto &y : x) kv_item(y);
    }
    template <typename T>
    void kv_class(T &x)
    {
        auto &d = static_cast<Derived &>(*this);
        if constexpr (kv_detail::kv_free<Derived, T>) {
            serialize(d, x, 0u);
        } else {
            boost::serialization::access::serialize(d, x, 0u);
        }
    }
    template <typename T, std::size_t N>
    void kv_item(std::array<T, N> &x)
    {
        for (auto &y : x) kv_item(y);
    }
    template <typename C>
    void kv_size(C &x)
    {
        std::size_t n = x.size();
        kv_raw(n);
        if constexpr (!Save) x.resize(n);
    }
    template <typename T>
    void kv_item(std::vector<T> &x)
    {
        kv_size(x);
        for (auto &y : x) kv_item(y);
    }
    void kv_item(std::string &x)
    {
        kv_size(x);
        for (auto &y : x) kv_raw(y);
    }
    template <typename T, typename U>
    void kv_item(std::pair<T, U> &x)
    {
        kv_item(x.first);
        kv_item(x.second);
    }
    template <typename... T>
    void kv_item(std::tuple<T...> &x)
    {
        std::apply([this](auto &...y) { (kv_item(y), ...); }, x);
    }
    template <typename T>
    void kv_item(std::optional<T> &x)
    {
        bool b = x.has_value();
        kv_raw(b);
        if constexpr (!Save) {
            if (b) {
                x.emplace();
            } else {
                x.reset();
            }
        }
        if (b) kv_item(*x);
    }
    template <typename T>
    void kv_item(std::unique_ptr<T> &x)
    {
        bool b = x != nullptr;
        kv_raw(b);
        if constexpr (!Save) {
            if (b) {
                x = std::make_unique<T>();
            } else {
                x.reset();
            }
        }
        if (b) kv_item(*x);
    }
};
class binary_oarchive : public kv_archive<binary_oarchive, true>
{
public:
    using kv_archive<binary_oarchive, true>::kv_archive;
};
class binary_iarchive : public kv_archive<binary_iarchive, false>
{
public:
    using kv_archive<binary_iarchive, false>::kv_archive;
};
} // namespace boost::archive
