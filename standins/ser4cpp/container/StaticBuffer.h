#ifndef SER4CPP_STATICBUFFER_H
#define SER4CPP_STATICBUFFER_H
// Stand-in for ser4cpp (see ../../README.md)
#include "ser4cpp/container/SequenceTypes.h"

namespace ser4cpp
{

// Fixed-size buffer of bytes
template <std::size_t LENGTH> class StaticBuffer
{
public:
    StaticBuffer() = default;

    rseq_t as_seq() const { return rseq_t(m_buffer, LENGTH); }
    rseq_t as_seq(std::size_t max_size) const { return as_seq().take(max_size); }
    wseq_t as_wseq() { return wseq_t(m_buffer, LENGTH); }
    wseq_t as_wseq(std::size_t max_size) { return wseq_t(m_buffer, std::min(LENGTH, max_size)); }

    uint8_t operator[](std::size_t i) const { assert(i < LENGTH); return m_buffer[i]; }
    uint8_t& operator[](std::size_t i) { assert(i < LENGTH); return m_buffer[i]; }
    std::size_t length() const { return LENGTH; }
    static constexpr std::size_t size() { return LENGTH; }

private:
    uint8_t m_buffer[LENGTH] = {0};
};

} // namespace ser4cpp

#endif
