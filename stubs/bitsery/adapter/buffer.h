#pragma once
#include "../bitsery.h"
namespace bitsery {
template <typename Buffer>
class OutputBufferAdapter {
    Buffer* b_;
    size_t n_ = 0;
public:
    OutputBufferAdapter(Buffer& b) : b_(&b) {}
    void write(const unsigned char* d, size_t n) {
        if (b_->size() < n_ + n) b_->resize(n_ + n);
        std::memcpy(b_->data() + n_, d, n);
        n_ += n;
    }
    size_t writtenBytesCount() const { return n_; }
};
template <typename Buffer>
class InputBufferAdapter {
    typename Buffer::const_iterator p_, e_;
    ReaderError err_ = ReaderError::NoError;
public:
    InputBufferAdapter(typename Buffer::const_iterator b, size_t n) : p_(b), e_(b + n) {}
    void read(unsigned char* d, size_t n) {
        if (err_ != ReaderError::NoError) return;
        if (static_cast<size_t>(e_ - p_) < n) { std::memset(d, 0, n); error(ReaderError::DataOverflow); return; }
        for (size_t i = 0; i < n; ++i) d[i] = static_cast<unsigned char>(*p_++);
    }
    ReaderError error() const { return err_; }
    void error(ReaderError e) { if (err_ == ReaderError::NoError) err_ = e; }
    bool isCompletedSuccessfully() const { return err_ == ReaderError::NoError && p_ == e_; }
};
}
