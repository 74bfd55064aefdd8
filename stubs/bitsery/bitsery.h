// Stand-in for bitsery, which is not installed in this sandbox: the subset of
// its interface that simfil uses, with the same wire behaviour in spirit
// (fixed-width values, length-prefixed containers, sticky reader errors).
#pragma once
#include <cstdint>
#include <cstring>
#include <istream>
#include <ostream>
#include <string>
#include <type_traits>
#include <utility>

namespace bitsery {

enum class ReaderError { NoError, ReadingError, DataOverflow, InvalidData, InvalidPointer };

namespace traits {
template <typename T, bool Resizable, bool Contiguous>
struct StdContainer {
    using TValue = typename T::value_type;
    static constexpr bool isResizable = Resizable;
    static constexpr bool isContiguous = Contiguous;
    static size_t size(const T& c) { return c.size(); }
};
template <typename T> struct ContainerTraits;
template <typename T> struct TextTraits;
template <typename Ext, typename T> struct ExtensionTraits;
}

class Access {
public:
    template <typename S, typename T>
    static auto serialize(S& s, T& v) -> decltype(v.serialize(s)) { return v.serialize(s); }
    template <typename T> static T create() { return T{}; }
};

namespace details {
template <typename S, typename T, typename = void> struct HasMember : std::false_type {};
template <typename S, typename T>
struct HasMember<S, T, std::void_t<decltype(Access::serialize(std::declval<S&>(), std::declval<T&>()))>> : std::true_type {};

template <typename S, typename T>
void callSerialize(S& s, T& v)
{
    if constexpr (HasMember<S, T>::value)
        Access::serialize(s, v);
    else
        serialize(s, v);
}
}

template <typename Adapter>
class Serializer {
    Adapter adapter_;
public:
    template <typename... A> explicit Serializer(A&&... a) : adapter_(std::forward<A>(a)...) {}
    Adapter& adapter() { return adapter_; }
    template <size_t N, typename T> void raw(const T& v) {
        unsigned char b[N];
        static_assert(sizeof(T) == N);
        std::memcpy(b, &v, N);
        adapter_.write(b, N);
    }
    void length(size_t n) { raw<4>(static_cast<uint32_t>(n)); }
    template <typename T> void value1b(const T& v) { raw<1>(v); }
    template <typename T> void value2b(const T& v) { raw<2>(v); }
    template <typename T> void value4b(const T& v) { raw<4>(v); }
    template <typename T> void value8b(const T& v) { raw<8>(v); }
    template <typename T> void object(const T& v) { details::callSerialize(*this, const_cast<T&>(v)); }
    template <typename T> void text1b(const T& s, size_t) {
        length(s.size());
        adapter_.write(reinterpret_cast<const unsigned char*>(s.data()), s.size());
    }
    template <typename T> void container(const T& c, size_t) {
        length(c.size());
        for (auto const& e : c) object(e);
    }
    template <typename T, typename Ext> void ext(const T& obj, const Ext& e) {
        e.serialize(*this, obj, [](Serializer& s, auto& v) { s.object(v); });
    }
};

template <typename Adapter>
class Deserializer {
    Adapter adapter_;
public:
    template <typename... A> explicit Deserializer(A&&... a) : adapter_(std::forward<A>(a)...) {}
    Adapter& adapter() { return adapter_; }
    template <size_t N, typename T> void raw(T& v) {
        unsigned char b[N] = {};
        static_assert(sizeof(T) == N);
        adapter_.read(b, N);
        std::memcpy(&v, b, N);
    }
    size_t length(size_t max) {
        uint32_t n = 0;
        raw<4>(n);
        if (n > max) { adapter_.error(ReaderError::InvalidData); n = 0; }
        return n;
    }
    template <typename T> void value1b(T& v) { raw<1>(v); }
    template <typename T> void value2b(T& v) { raw<2>(v); }
    template <typename T> void value4b(T& v) { raw<4>(v); }
    template <typename T> void value8b(T& v) { raw<8>(v); }
    template <typename T> void object(T& v) { details::callSerialize(*this, v); }
    template <typename T> void text1b(T& str, size_t max) {
        auto n = length(max);
        if constexpr (requires { str.resize(n); }) {
            if (adapter_.error() != ReaderError::NoError) return;
            str.resize(n);
            adapter_.read(reinterpret_cast<unsigned char*>(str.data()), n);
        }
    }
    template <typename T> void container(T& c, size_t max) {
        auto n = length(max);
        if (adapter_.error() != ReaderError::NoError) n = 0;
        c.resize(n);
        for (auto& e : c) object(e);
    }
    template <typename T, typename Ext> void ext(T& obj, const Ext& e) {
        e.deserialize(*this, obj, [](Deserializer& s, auto& v) { s.object(v); });
    }
};

template <typename OutputAdapter, typename T>
size_t quickSerialization(OutputAdapter adapter, const T& value)
{
    Serializer<OutputAdapter> s(std::move(adapter));
    s.object(value);
    return s.adapter().writtenBytesCount();
}

template <typename InputAdapter, typename T>
std::pair<ReaderError, bool> quickDeserialization(InputAdapter adapter, T& value)
{
    Deserializer<InputAdapter> s(std::move(adapter));
    s.object(value);
    return {s.adapter().error(), s.adapter().isCompletedSuccessfully()};
}

}
