// Library code that libstdc++ keeps out of line.
#include <string>
#include <vector>
template class std::__cxx11::basic_string<char>;

// what the implementation of std::thread does in a new thread
#include <sstream>
#define private public
#include <thread>
#undef private
extern "C" void psym_thread_main(std::thread::_State* s) { s->_M_run(); delete s; }

// growth policy of the unordered containers
#include <unordered_set>
namespace std { namespace __detail {
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const {
  static const std::size_t primes[] = {1, 2, 3, 5, 7, 11, 13, 17, 29, 59, 127, 257, 541};
  std::size_t p = 541;
  for (std::size_t q : primes) if (q >= n) { p = q; break; }
  _M_next_resize = p;
  return p;
}
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t bkt, std::size_t elt, std::size_t ins) const {
  if (elt + ins <= _M_next_resize) return {false, 0};
  std::size_t want = elt + ins > bkt ? (elt + ins > 2 * bkt ? elt + ins : 2 * bkt) : 0;
  if (want) return {true, _M_next_bkt(want + 1)};
  _M_next_resize = bkt;
  return {false, 0};
}
} }
