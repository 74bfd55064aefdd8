#pragma once
#include "../bitsery.h"
namespace bitsery {
class OutputStreamAdapter {
    std::ostream* os_;
public:
    explicit OutputStreamAdapter(std::ostream& os) : os_(&os) {}
    void write(const unsigned char* d, size_t n) { os_->write(reinterpret_cast<const char*>(d), static_cast<std::streamsize>(n)); }
};
class InputStreamAdapter {
    std::istream* is_;
    ReaderError err_ = ReaderError::NoError;
public:
    explicit InputStreamAdapter(std::istream& is) : is_(&is) {}
    void read(unsigned char* d, size_t n) {
        if (err_ != ReaderError::NoError) return;
        is_->read(reinterpret_cast<char*>(d), static_cast<std::streamsize>(n));
        if (static_cast<size_t>(is_->gcount()) != n) { std::memset(d, 0, n); error(ReaderError::DataOverflow); }
    }
    ReaderError error() const { return err_; }
    void error(ReaderError e) { if (err_ == ReaderError::NoError) err_ = e; }
};
}
