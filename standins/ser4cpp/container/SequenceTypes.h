#ifndef SER4CPP_SEQUENCETYPES_H
#define SER4CPP_SEQUENCETYPES_H
// Stand-in for ser4cpp (see ../../README.md)
#include <algorithm>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <limits>
#include <string>

namespace ser4cpp
{

template <class L> class HasLength
{
public:
    HasLength() : m_length{0} {}
    explicit HasLength(L length) : m_length{length} {}
    L length() const { return m_length; }
    bool is_empty() const { return m_length == 0; }
    bool is_not_empty() const { return m_length != 0; }

protected:
    L m_length;
};

template <class L> class RSeq : public HasLength<L>
{
public:
    static RSeq empty() { return RSeq(nullptr, 0); }

    RSeq() : HasLength<L>(0), m_buffer{nullptr} {}
    RSeq(uint8_t const* buffer, L length) : HasLength<L>(length), m_buffer{buffer} {}

    void make_empty()
    {
        m_buffer = nullptr;
        this->m_length = 0;
    }

    RSeq take(L count) const { return RSeq(m_buffer, std::min(this->length(), count)); }

    RSeq skip(L count) const
    {
        auto num = std::min(this->length(), count);
        return RSeq(m_buffer + num, this->length() - num);
    }

    void advance(L count)
    {
        auto num = std::min(this->length(), count);
        m_buffer += num;
        this->m_length -= num;
    }

    operator uint8_t const*() const { return m_buffer; }

    bool equals(const RSeq& rhs) const
    {
        if (this->length() != rhs.length()) return false;
        return this->length() == 0 || memcmp(m_buffer, rhs.m_buffer, this->length()) == 0;
    }

    const uint8_t* data() const { return m_buffer; }
    const uint8_t* begin() const { return m_buffer; }
    const uint8_t* end() const { return m_buffer + this->m_length; }

protected:
    uint8_t const* m_buffer;
};

using rseq_t = RSeq<std::size_t>;

class wseq_t : public HasLength<std::size_t>
{
public:
    static wseq_t empty() { return wseq_t(); }

    wseq_t() : HasLength<std::size_t>(0), m_buffer{nullptr} {}
    wseq_t(uint8_t* buffer, std::size_t length) : HasLength<std::size_t>(length), m_buffer{buffer} {}

    void set_all_to(uint8_t value)
    {
        for (std::size_t i = 0; i < m_length; ++i) m_buffer[i] = value;
    }

    void make_empty()
    {
        m_buffer = nullptr;
        m_length = 0;
    }

    std::size_t advance(std::size_t count)
    {
        const auto num = std::min(count, m_length);
        m_buffer += num;
        m_length -= num;
        return num;
    }

    wseq_t skip(std::size_t count) const
    {
        const auto num = std::min(count, m_length);
        return wseq_t(m_buffer + num, m_length - num);
    }

    wseq_t take(std::size_t count) const { return wseq_t(m_buffer, std::min(count, m_length)); }

    rseq_t readonly() const { return rseq_t(m_buffer, m_length); }
    rseq_t readonly(std::size_t length) const { return rseq_t(m_buffer, std::min(length, m_length)); }

    // Copies the whole of 'src' and advances past it; when it does not fit, copies nothing
    // and returns an empty sequence.
    rseq_t copy_from(const rseq_t& src)
    {
        if (src.length() > m_length) return rseq_t::empty();
        auto ret = readonly(src.length());
        if (src.length() > 0) memcpy(m_buffer, static_cast<uint8_t const*>(src), src.length());
        advance(src.length());
        return ret;
    }

    rseq_t move_from(const rseq_t& src)
    {
        if (src.length() > m_length) return rseq_t::empty();
        auto ret = readonly(src.length());
        if (src.length() > 0) memmove(m_buffer, static_cast<uint8_t const*>(src), src.length());
        advance(src.length());
        return ret;
    }

    // Puts one byte and advances; false when there is no room.
    bool put(uint8_t byte)
    {
        if (m_length == 0) return false;
        m_buffer[0] = byte;
        advance(1);
        return true;
    }

    bool write(const rseq_t& src)
    {
        if (src.length() > m_length) return false;
        copy_from(src);
        return true;
    }

    operator uint8_t*() { return m_buffer; }
    operator uint8_t const*() const { return m_buffer; }
    uint8_t* data() { return m_buffer; }

private:
    uint8_t* m_buffer;
};

} // namespace ser4cpp

#endif
