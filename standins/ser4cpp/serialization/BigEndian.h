#ifndef SER4CPP_BIGENDIAN_H
#define SER4CPP_BIGENDIAN_H
// Stand-in for ser4cpp (see ../../README.md)
#include <type_traits>
#include "ser4cpp/container/SequenceTypes.h"

namespace ser4cpp
{
namespace details
{

template <class T> class UIntBigEndian
{
public:
    using type_t = T;
    static const std::size_t size = sizeof(T);
    static constexpr T min_value = std::numeric_limits<T>::min();
    static constexpr T max_value = std::numeric_limits<T>::max();

    // Reads the value and advances past it; on a short input the input becomes empty and the
    // value zero.
    static bool read_from(rseq_t& input, T& out)
    {
        if (input.length() < size)
        {
            input.make_empty();
            out = 0;
            return false;
        }
        uint8_t const* p = input;
        typename std::common_type<T, uint32_t>::type v = 0;
        for (std::size_t i = 0; i < size; ++i) v = (v << 8) | p[i];
        out = static_cast<T>(v);
        input.advance(size);
        return true;
    }

    static bool write_to(wseq_t& dest, T value)
    {
        if (dest.length() < size) return false;
        uint8_t* p = dest;
        for (std::size_t i = 0; i < size; ++i) p[i] = static_cast<uint8_t>(value >> (8 * (size - 1 - i)));
        dest.advance(size);
        return true;
    }
};

} // namespace details

using UInt8 = details::UIntBigEndian<uint8_t>;
using UInt16 = details::UIntBigEndian<uint16_t>;
using UInt32 = details::UIntBigEndian<uint32_t>;
using UInt64 = details::UIntBigEndian<uint64_t>;

} // namespace ser4cpp

#endif
