// Stand-in for sfl::segmented_vector, which is not installed in this sandbox.
// Same observable behaviour (stable element addresses, vector interface).
#pragma once
#include <cstddef>
#include <deque>
#include <memory>
namespace sfl {
template <class T, std::size_t N, class Allocator = std::allocator<T>>
class segmented_vector : public std::deque<T, Allocator>
{
public:
    using std::deque<T, Allocator>::deque;
    void reserve(std::size_t) {}
};
}
