// Engine self-test: standard library constructs a refactoring might introduce.  Not a property of the repository.
#include "harness.h"
#include <algorithm>
#include <array>
#include <atomic>
#include <deque>
#include <functional>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <queue>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include <bitset>
#include <cstring>
#include <iterator>
ENTRY(st_vector) { std::vector<uint8_t> v; for (int i = 0; i < 5; i++) v.push_back((uint8_t) sym_int(1, "x")); v.insert(v.begin() + 2, 7); v.erase(v.begin()); v.resize(9); v.reserve(40); std::vector<uint8_t> w(v.begin(), v.end()); w.swap(v); sym_check(v == w && v[1] == 7, "vector"); std::vector<std::string> s{"a", "b"}; s.emplace_back("ccccccccccccccccccccccccccccccc"); sym_check(s[2].size() == 31, "strings"); std::vector<bool> b(10); b[3] = true; sym_check(b[3] && !b[4], "bits"); sym_reach("end"); }
ENTRY(st_algo) { std::array<uint8_t, 4> a; for (auto &x : a) { x = (uint8_t) sym_int(1, "x"); } std::sort(a.begin(), a.end()); sym_check(std::is_sorted(a.begin(), a.end()), "sorted"); bool z = std::any_of(a.begin(), a.end(), [](uint8_t x) { return x == 0; }); sym_check(z == (a[0] == 0), "any"); unsigned s = std::accumulate(a.begin(), a.end(), 0u); sym_check(s <= 1020, "sum"); auto it = std::find(a.begin(), a.end(), a[2]); sym_check(it != a.end(), "find"); std::reverse(a.begin(), a.end()); std::rotate(a.begin(), a.begin() + 1, a.end()); std::copy_backward(a.begin(), a.begin() + 2, a.end()); std::fill_n(a.begin(), 2, 0); sym_check(std::count(a.begin(), a.begin() + 2, 0) == 2 && std::min_element(a.begin(), a.end()) == a.begin() && std::equal(a.begin(), a.begin() + 1, a.begin() + 1), "algo"); sym_check(std::lower_bound(a.begin(), a.begin() + 2, 1) == a.begin() + 2, "lb"); std::stable_sort(a.begin(), a.end()); sym_reach("end"); }
ENTRY(st_deque) { std::deque<std::string> d; for (int i = 0; i < 20; i++) { d.push_back(std::string(i, 'x')); d.push_front("y"); } d.pop_front(); d.pop_back(); d.erase(d.begin() + 3); sym_check(d.size() == 37, "deque"); std::queue<int> q; q.push(1); q.pop(); std::list<int> l{3, 1, 2}; l.sort(); l.splice(l.begin(), l, std::next(l.begin())); l.remove(1); l.reverse(); sym_check(l.size() == 2, "list"); std::priority_queue<int> p; p.push(1); p.push(5); sym_check(p.top() == 5, "pq"); sym_reach("end"); }
ENTRY(st_opt) { std::optional<std::string> o; o = "hello"; auto p = std::move(o); sym_check(p && p->size() == 5, "opt"); std::variant<int, std::string, std::vector<int>> v = 3; v = std::string("abc"); sym_check(std::holds_alternative<std::string>(v) && std::visit([](auto &x) { return sizeof x > 8; }, v), "variant"); auto [a, b] = std::make_pair(1, 2); auto t = std::make_tuple(1, std::string("z"), 2.0); sym_check(std::get<1>(t) == "z" && a + b == 3, "tuple"); std::function<uint64_t(uint64_t)> f = [p](uint64_t x) { return x + p->size(); }; uint64_t x = sym_int(8, "x"); sym_check(f(x) == x + 5, "function"); sym_reach("end"); }
ENTRY(st_hash) { std::unordered_map<uint64_t, std::string> m; for (uint64_t i = 0; i < 30; i++) m[i * 4] = "v"; m.erase(8); auto it = m.find(12); sym_check(it != m.end() && m.count(8) == 0 && m.size() == 29, "umap"); std::unordered_set<std::string> s{"a", "b"}; sym_check(s.count("a") == 1, "uset"); std::unordered_map<std::string, int> k{{":method", 1}}; sym_check(k.at(":method") == 1, "string keys"); sym_reach("end"); }
ENTRY(st_tree) { std::map<std::string, int> m{{"b", 1}, {"a", 2}}; m.emplace("c", 3); m.insert_or_assign("d", 4); m.try_emplace("e", 5); std::set<uint64_t> s{3, 1, 2}; uint64_t x = sym_int(1, "x"); s.insert(x); sym_check(*s.begin() <= 1 && s.size() >= 3, "set"); std::multimap<int, int> mm{{1, 1}, {1, 2}}; sym_check(mm.count(1) == 2 && m.lower_bound("bb")->first == "c" && m.size() == 5, "map"); std::map<int, int> n(std::move(mm.size() ? std::map<int, int>{{1, 2}} : std::map<int, int>{})); std::map<int, int> c = n; c.swap(n); auto nh = c.extract(1); sym_check(c.empty() && nh.mapped() == 2, "extract"); sym_reach("end"); }
struct Base { virtual ~Base() = default; virtual int f() const = 0; }; struct D1 : Base { int x = 1; int f() const override { return x; } }; struct D2 : Base { std::string s = "two two two two two two"; int f() const override { return (int) s.size(); } };
ENTRY(st_ptr) { std::unique_ptr<Base> p = std::make_unique<D1>(); p.reset(new D2); std::shared_ptr<Base> s = std::make_shared<D2>(); std::weak_ptr<Base> w = s; auto t = s; sym_check(s->f() == 23 && t.use_count() == 2 && w.lock() == s, "shared"); s.reset(); t.reset(); sym_check(w.expired(), "expired"); std::atomic<uint32_t> a{1}; a.fetch_add(2); a--; uint32_t e = 2; a.compare_exchange_strong(e, 9); sym_check(a.load() == 9, "atomic"); Base *b = p.get(); sym_check(dynamic_cast<D2 *>(b) != nullptr, "dynamic_cast"); sym_reach("end"); }
ENTRY(st_string) { std::string s = std::to_string(123) + ":" + std::string(3, 'a'); s.append("tail").insert(0, ">"); s.replace(0, 1, "<<"); s.erase(0, 1); sym_check(s == "<123:aaatail" && s.find(':') == 4 && s.substr(1, 3) == "123" && s.compare(0, 1, "<") == 0 && s.rfind("tail") == 8, "string"); std::string_view v = s; v.remove_prefix(1); sym_check(v.substr(0, 3) == "123" && v.find("aaa") == 4 && v.front() == '1' && std::stoi("42") == 42, "view"); char b[4] = {}; std::memcpy(b, "abc", 3); std::memmove(b + 1, b, 2); sym_check(std::strlen(b) == 3 && std::strcmp(b, "aab") == 0 && std::memcmp(b, "aab", 3) == 0 && std::strchr(b, 'b') == b + 2, "cstring"); std::bitset<64> bits(5); sym_check(bits.count() == 2, "bitset"); std::string u(s); std::transform(u.begin(), u.end(), u.begin(), [](char c) { return c == 'a' ? 'A' : c; }); sym_check(u < s || s < u, "lt"); sym_reach("end"); }
static int depth(int n) { if (n == 0) throw 5; return depth(n - 1); }
ENTRY(st_throw) { int r = 0; std::string guard = "a string on the heap, a string on the heap"; try { depth(3); } catch (int x) { r = x; } sym_check(r == 5, "caught"); std::map<int, int> m; bool c = false; try { m.at(3); } catch (const std::exception &) { c = true; } sym_check(c, "at throws"); sym_reach("end"); }
ENTRY(st_static) { static const std::map<uint64_t, std::string> t = {{1, "a"}, {2, "b"}}; static std::vector<int> v{1, 2, 3}; sym_check(t.size() == 2 && v.size() == 3 && std::numeric_limits<uint64_t>::max() == UINT64_MAX, "static"); uint64_t x = sym_int(8, "x"); sym_check(__builtin_popcountll(x & 1) == (int) (x & 1) && (x == 0 || __builtin_clzll(x) < 64), "builtins"); uint32_t y = (uint32_t) x; sym_check(__builtin_bswap32(__builtin_bswap32(y)) == y, "bswap"); uint64_t o; bool f = __builtin_add_overflow(x, 1, &o); sym_check(f == (x == UINT64_MAX), "overflow"); double d = (double) 3; sym_check(d * 2 == 6, "double"); sym_reach("end"); }
