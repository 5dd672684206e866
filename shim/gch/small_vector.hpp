// Stand-in for gch::small_vector (the real library is not available offline).
// Same interface as far as Sleipnir uses it; always stores on the heap, so the
// address sanitizer sees every out-of-bounds access.
#pragma once

#include <algorithm>
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <utility>
#include <vector>

namespace gch {

template <typename T>
struct default_buffer_size {
  static constexpr unsigned value = 4;
};

template <typename T, unsigned InlineCapacity = default_buffer_size<T>::value,
          typename Allocator = std::allocator<T>>
class small_vector : public std::vector<T, Allocator> {
 public:
  using base = std::vector<T, Allocator>;
  using base::base;
  using base::operator=;

  small_vector() = default;
  small_vector(const small_vector&) = default;
  small_vector(small_vector&&) = default;
  small_vector& operator=(const small_vector&) = default;
  small_vector& operator=(small_vector&&) = default;
  ~small_vector() = default;

  template <typename It>
  small_vector& append(It first, It last) {
    this->insert(this->end(), first, last);
    return *this;
  }
  small_vector& append(std::initializer_list<T> l) {
    this->insert(this->end(), l.begin(), l.end());
    return *this;
  }
};

template <typename T, unsigned N, typename A, typename Pred>
typename small_vector<T, N, A>::size_type erase_if(small_vector<T, N, A>& v,
                                                   Pred pred) {
  const auto old = v.size();
  v.erase(std::remove_if(v.begin(), v.end(), pred), v.end());
  return old - v.size();
}

template <typename T, unsigned N, typename A, typename U>
typename small_vector<T, N, A>::size_type erase(small_vector<T, N, A>& v,
                                                const U& value) {
  const auto old = v.size();
  v.erase(std::remove(v.begin(), v.end(), value), v.end());
  return old - v.size();
}

}  // namespace gch
