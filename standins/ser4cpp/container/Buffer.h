#ifndef SER4CPP_BUFFER_H
#define SER4CPP_BUFFER_H
// Stand-in for ser4cpp (see ../../README.md)
#include <memory>
#include "ser4cpp/container/SequenceTypes.h"

namespace ser4cpp
{

// Dynamically sized, fixed length array of bytes
class Buffer final : public HasLength<std::size_t>
{
public:
    Buffer() : HasLength<std::size_t>(0) {}
    explicit Buffer(std::size_t length) : HasLength<std::size_t>(length), m_bytes(new uint8_t[length]()) {}
    explicit Buffer(const rseq_t& input) : Buffer(input.length())
    {
        auto dest = this->as_wslice();
        dest.copy_from(input);
    }
    Buffer(const Buffer&) = delete;
    Buffer& operator=(const Buffer&) = delete;

    rseq_t as_rslice() const { return rseq_t(m_bytes.get(), m_length); }
    rseq_t as_rseq() const { return as_rslice(); }
    wseq_t as_wslice() { return wseq_t(m_bytes.get(), m_length); }
    wseq_t as_wseq() { return as_wslice(); }

    const uint8_t& operator[](std::size_t i) const { assert(i < m_length); return m_bytes[i]; }
    uint8_t& operator[](std::size_t i) { assert(i < m_length); return m_bytes[i]; }

private:
    std::unique_ptr<uint8_t[]> m_bytes;
};

} // namespace ser4cpp

#endif
