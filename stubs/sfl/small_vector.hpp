// Stand-in for sfl::small_vector, which is not installed in this sandbox.
#pragma once
#include <cstddef>
#include <memory>
#include <vector>
namespace sfl {
template <class T, std::size_t N, class Allocator = std::allocator<T>>
class small_vector : public std::vector<T, Allocator>
{
public:
    using std::vector<T, Allocator>::vector;
};
}
