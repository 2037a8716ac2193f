// Declarations-only model of the parts of the C++ standard library that libnurbs uses.
// The verifier parses the REAL sources of /repo against these headers; every name below has an
// assumed contract in /verif/vc/builtins.py. Nothing here has a body that is executed.
#pragma once
using size_t = unsigned long;
using ptrdiff_t = long;
extern "C++" void __vc_assert(bool);
#define assert(x) __vc_assert(static_cast<bool>(x))
#define M_PI 3.14159265358979323846
namespace std {
using size_t = unsigned long; using ptrdiff_t = long; using nullptr_t = decltype(nullptr);
using int32_t = int; using int64_t = long; using uint32_t = unsigned; using uint64_t = unsigned long; using uint8_t = unsigned char;
template<class T, T v> struct integral_constant { static constexpr T value = v; constexpr operator T() const { return v; } };
template<bool B> using bool_constant = integral_constant<bool, B>;
using true_type = bool_constant<true>; using false_type = bool_constant<false>;
template<class T, class U> struct is_same : false_type {}; template<class T> struct is_same<T, T> : true_type {};
template<class T, class U> inline constexpr bool is_same_v = is_same<T, U>::value;
template<bool B, class T = void> struct enable_if {}; template<class T> struct enable_if<true, T> { using type = T; };
template<bool B, class T = void> using enable_if_t = typename enable_if<B, T>::type;
template<class T> struct remove_reference { using type = T; }; template<class T> struct remove_reference<T&> { using type = T; };
template<class T> struct remove_reference<T&&> { using type = T; };
template<class T> using remove_reference_t = typename remove_reference<T>::type;
template<class T> struct remove_const { using type = T; }; template<class T> struct remove_const<const T> { using type = T; };
template<class T> using remove_cvref_t = typename remove_const<remove_reference_t<T>>::type;
template<class T> using decay_t = remove_cvref_t<T>;
template<class T> remove_reference_t<T>&& move(T&&) noexcept;
template<class T> T&& forward(remove_reference_t<T>&) noexcept;
template<class T> void swap(T&, T&);
template<class T, class U = T> T exchange(T&, U&&);
template<class T> const T& as_const(T&);

template<class T> class initializer_list { const T* p; size_t n; public: initializer_list(); size_t size() const; const T* begin() const; const T* end() const; };

template<class A, class B> struct pair { A first; B second; pair(); pair(const A&, const B&);
  template<class C, class D> pair(const pair<C, D>&); template<class C, class D> pair& operator=(const pair<C, D>&); };
template<class A, class B> pair<decay_t<A>, decay_t<B>> make_pair(A&&, B&&);
template<class A, class B> pair(A, B) -> pair<A, B>;
template<class... T> class tuple { public: tuple(); tuple(const T&...); template<class... U> tuple& operator=(const tuple<U...>&); template<class A, class B> tuple& operator=(const pair<A, B>&); };
template<class... T> tuple(T...) -> tuple<T...>;
template<class... T> tuple<decay_t<T>...> make_tuple(T&&...);
template<class... T> tuple<T&...> tie(T&...);
template<class T> struct tuple_size; template<size_t I, class T> struct tuple_element;
template<class... T> struct tuple_size<tuple<T...>> { static constexpr size_t value = sizeof...(T); };
template<class A, class... R> struct tuple_element<0, tuple<A, R...>> { using type = A; };
template<size_t I, class A, class... R> struct tuple_element<I, tuple<A, R...>> : tuple_element<I - 1, tuple<R...>> {};
template<size_t I, class... T> typename tuple_element<I, tuple<T...>>::type& get(tuple<T...>&);
template<size_t I, class... T> const typename tuple_element<I, tuple<T...>>::type& get(const tuple<T...>&);
template<class A, class B> struct tuple_size<pair<A, B>> { static constexpr size_t value = 2; };
template<class A, class B> struct tuple_element<0, pair<A, B>> { using type = A; };
template<class A, class B> struct tuple_element<1, pair<A, B>> { using type = B; };
template<size_t I, class A, class B> typename tuple_element<I, pair<A, B>>::type& get(pair<A, B>&);
template<size_t I, class A, class B> const typename tuple_element<I, pair<A, B>>::type& get(const pair<A, B>&);

struct input_iterator_tag {}; struct random_access_iterator_tag {};
template<class T> class __vit { public: using value_type = remove_cvref_t<T>;
  __vit(); template<class U> __vit(const __vit<U>&);
  T& operator*() const; T* operator->() const; T& operator[](ptrdiff_t) const;
  __vit& operator++(); __vit operator++(int); __vit& operator--(); __vit operator--(int); __vit& operator+=(ptrdiff_t); __vit& operator-=(ptrdiff_t);
  __vit operator+(ptrdiff_t) const; __vit operator-(ptrdiff_t) const; };
template<class T, class U> ptrdiff_t operator-(const __vit<T>&, const __vit<U>&);
template<class T, class U> bool operator==(const __vit<T>&, const __vit<U>&);
template<class T, class U> bool operator!=(const __vit<T>&, const __vit<U>&);
template<class T, class U> bool operator<(const __vit<T>&, const __vit<U>&);
template<class T, class U> bool operator>(const __vit<T>&, const __vit<U>&);
template<class T, class U> bool operator<=(const __vit<T>&, const __vit<U>&);
template<class T, class U> bool operator>=(const __vit<T>&, const __vit<U>&);
template<class I> class reverse_iterator { public: I base() const; using value_type = typename I::value_type;
  decltype(*I()) operator*() const; reverse_iterator& operator++(); reverse_iterator operator++(int); reverse_iterator operator+(ptrdiff_t) const; };
template<class I> bool operator!=(const reverse_iterator<I>&, const reverse_iterator<I>&);
template<class I> bool operator==(const reverse_iterator<I>&, const reverse_iterator<I>&);
template<class I> ptrdiff_t operator-(const reverse_iterator<I>&, const reverse_iterator<I>&);
template<class I> ptrdiff_t distance(I, I);
template<class I> I next(I, ptrdiff_t = 1); template<class I> I prev(I, ptrdiff_t = 1); template<class I> void advance(I&, ptrdiff_t);

template<class T> class vector { public: using value_type = T; using size_type = size_t; using iterator = __vit<T>; using const_iterator = __vit<const T>; using difference_type = ptrdiff_t;
  using reference = T&; using const_reference = const T&;
  vector(); explicit vector(size_t); vector(size_t, const T&); vector(initializer_list<T>); vector(const vector&); vector(vector&&);
  template<class U> vector(__vit<U>, __vit<U>);
  vector& operator=(const vector&); vector& operator=(vector&&); vector& operator=(initializer_list<T>);
  size_t size() const; bool empty() const; size_t capacity() const; void reserve(size_t); void resize(size_t); void resize(size_t, const T&); void clear(); void shrink_to_fit();
  T& operator[](size_t); const T& operator[](size_t) const; T& at(size_t); const T& at(size_t) const;
  T& front(); const T& front() const; T& back(); const T& back() const; T* data(); const T* data() const;
  iterator begin(); iterator end(); const_iterator begin() const; const_iterator end() const; const_iterator cbegin() const; const_iterator cend() const;
  reverse_iterator<iterator> rbegin(); reverse_iterator<iterator> rend(); reverse_iterator<const_iterator> rbegin() const; reverse_iterator<const_iterator> rend() const;
  void push_back(const T&); void push_back(T&&); template<class... A> T& emplace_back(A&&...); void pop_back();
  iterator insert(const_iterator, const T&); iterator insert(const_iterator, T&&); iterator insert(const_iterator, size_t, const T&);
  template<class U> iterator insert(const_iterator, __vit<U>, __vit<U>); template<class... A> iterator emplace(const_iterator, A&&...);
  iterator erase(const_iterator); iterator erase(const_iterator, const_iterator); void assign(size_t, const T&); template<class U> void assign(__vit<U>, __vit<U>); void swap(vector&); };
template<class T> vector(size_t, T) -> vector<T>;
template<class T> vector(int, T) -> vector<T>;
template<class U> vector(__vit<U>, __vit<U>) -> vector<remove_cvref_t<U>>;
template<class T> bool operator==(const vector<T>&, const vector<T>&);
template<class T> bool operator!=(const vector<T>&, const vector<T>&);
template<class C> auto begin(C& c) -> decltype(c.begin()); template<class C> auto end(C& c) -> decltype(c.end());
template<class C> auto rbegin(C& c) -> decltype(c.rbegin()); template<class C> auto rend(C& c) -> decltype(c.rend());
template<class C> auto cbegin(C& c) -> decltype(c.cbegin()); template<class C> auto cend(C& c) -> decltype(c.cend());
template<class C> auto size(const C& c) -> decltype(c.size()); template<class C> ptrdiff_t ssize(const C& c);
template<class T, size_t N> class array { public: T __e[N]; T& operator[](size_t); const T& operator[](size_t) const; size_t size() const; T* data(); const T* data() const;
  __vit<T> begin(); __vit<T> end(); __vit<const T> begin() const; __vit<const T> end() const; void fill(const T&); T& front(); T& back(); };
template<class T> class span { public: span(); span(vector<T>&); span(T*, size_t); size_t size() const; bool empty() const; T& operator[](size_t) const; __vit<T> begin() const; __vit<T> end() const; T& front() const; T& back() const; T* data() const; span subspan(size_t) const; span subspan(size_t, size_t) const; span first(size_t) const; };
template<class T> span(vector<T>&) -> span<T>;
template<class T> class stack { public: void push(const T&); void push(T&&); template<class... A> void emplace(A&&...); void pop(); T& top(); const T& top() const; bool empty() const; size_t size() const; };
template<class T> class deque; template<class T> class optional { public: optional(); optional(const T&); bool has_value() const; explicit operator bool() const; T& operator*(); const T& operator*() const; T& value(); };

template<class I> I upper_bound(I, I, const typename I::value_type&); template<class I> I lower_bound(I, I, const typename I::value_type&);
template<class I, class P> I upper_bound(I, I, const typename I::value_type&, P); template<class I, class P> I lower_bound(I, I, const typename I::value_type&, P);
template<class I, class P> I partition_point(I, I, P);
template<class I, class P> I find_if(I, I, P); template<class I, class P> I find_if_not(I, I, P); template<class I, class T> I find(I, I, const T&); template<class I> I adjacent_find(I, I); template<class I, class P> I adjacent_find(I, I, P);
template<class I, class P> bool all_of(I, I, P); template<class I, class P> bool any_of(I, I, P); template<class I, class P> bool none_of(I, I, P);
template<class I, class P> ptrdiff_t count_if(I, I, P); template<class I, class T> ptrdiff_t count(I, I, const T&);
template<class I> void sort(I, I); template<class I, class P> void sort(I a, I, P p) { (void)p(*a, *a); } template<class I> void stable_sort(I, I); template<class I, class P> void stable_sort(I a, I, P p) { (void)p(*a, *a); }
template<class I> bool is_sorted(I, I); template<class I, class P> bool is_sorted(I, I, P);
template<class I> void reverse(I, I); template<class I> I rotate(I, I, I); template<class I, class J> J copy(I, I, J); template<class I, class J> J move(I, I, J); template<class I, class J> J copy_n(I, size_t, J); template<class I, class J> J copy_backward(I, I, J); template<class I, class J> J move_backward(I, I, J);
template<class I, class J> J reverse_copy(I, I, J);
template<class I, class T> void fill(I, I, const T&); template<class I, class T> I fill_n(I, size_t, const T&); template<class I, class T> void iota(I, I, T);
template<class I, class F> F for_each(I, I, F); template<class I, class J, class F> J transform(I, I, J, F); template<class I, class J, class K, class F> K transform(I, I, J, K, F);
template<class I, class T> T accumulate(I, I, T); template<class I, class T, class F> T accumulate(I, I, T, F);
template<class I, class J> bool equal(I, I, J); template<class I, class J> void swap_ranges(I, I, J); template<class I> void iter_swap(I, I);
template<class I> I max_element(I, I); template<class I> I min_element(I, I);
template<class T> class back_insert_iterator { public: back_insert_iterator& operator=(const T&); back_insert_iterator& operator*(); back_insert_iterator& operator++(); };
template<class T> back_insert_iterator<T> back_inserter(vector<T>&);
template<class T> const T& min(const T&, const T&); template<class T> const T& max(const T&, const T&);
template<class T> T min(initializer_list<T>); template<class T> T max(initializer_list<T>);
template<class T> const T& clamp(const T&, const T&, const T&);
template<class T> pair<T, T> minmax(const T&, const T&);
namespace ranges { template<class C> void reverse(C&&); template<class C> void sort(C&&); template<class C, class T> void fill(C&&, const T&); template<class C, class F> void for_each(C&&, F);
  template<class C, class P> bool all_of(C&&, P); template<class C, class P> bool any_of(C&&, P); template<class C, class P> bool none_of(C&&, P); template<class C, class T> ptrdiff_t count(C&&, const T&); template<class C, class P> ptrdiff_t count_if(C&&, P); template<class C> bool is_sorted(C&&);
  template<class C, class T> auto upper_bound(C&& c, const T&) -> decltype(c.begin()); template<class C, class T> auto lower_bound(C&& c, const T&) -> decltype(c.begin()); template<class C, class P> auto find_if(C&& c, P) -> decltype(c.begin()); template<class C, class P> auto find_if_not(C&& c, P) -> decltype(c.begin()); }
double abs(double); int abs(int); long abs(long); double fabs(double); double sqrt(double); double acos(double); double cos(double); double sin(double); double atan2(double, double); double pow(double, double); double fma(double, double, double); double hypot(double, double); double copysign(double, double); double floor(double); double ceil(double); double fmin(double, double); double fmax(double, double);
bool isnan(double); bool isfinite(double); bool isinf(double);
template<class T> struct numeric_limits { static T max(); static T min(); static T lowest(); static T epsilon(); static T infinity(); static T quiet_NaN(); static constexpr int digits10 = 15; static constexpr int max_digits10 = 17; };
template<class T> struct less { bool operator()(const T&, const T&) const; }; template<class T = void> struct greater { bool operator()(const T&, const T&) const; }; template<class T = void> struct multiplies {}; template<class T = void> struct plus {};
template<class F> class function;
template<class R, class... A> class function<R(A...)> { public: function(); template<class F> function(F); R operator()(A...) const; };

class string { public: using value_type = char; static constexpr size_t npos = ~0ul; string(); string(const char*); string(const string&); string(string&&); string(size_t, char); string& operator=(const string&); string& operator=(const char*);
  size_t size() const; size_t length() const; bool empty() const; char& front(); const char& front() const; char& back(); const char& back() const; char& operator[](size_t); const char& operator[](size_t) const; const char* c_str() const; const char* data() const; char* data();
  size_t find(char, size_t = 0) const; size_t find(const char*, size_t = 0) const; size_t rfind(char) const; size_t find_first_not_of(const char*) const; size_t find_last_not_of(const char*) const; size_t find_first_of(const char*) const; string substr(size_t = 0, size_t = npos) const; void clear(); void push_back(char); void resize(size_t); string& append(const string&); int compare(const string&) const; bool starts_with(const char*) const; bool starts_with(char) const;
  __vit<char> begin(); __vit<char> end(); __vit<const char> begin() const; __vit<const char> end() const; reverse_iterator<__vit<char>> rbegin(); reverse_iterator<__vit<char>> rend();
  __vit<char> erase(__vit<char>, __vit<char>); string& erase(size_t = 0, size_t = npos); string& operator+=(const string&); string& operator+=(char); string& operator+=(const char*); };
string operator+(const string&, const string&); string operator+(const char*, const string&); string operator+(const string&, const char*); string operator+(const string&, char);
bool operator==(const string&, const string&); bool operator==(const string&, const char*); bool operator!=(const string&, const string&); bool operator!=(const string&, const char*);
string to_string(int); string to_string(unsigned long); string to_string(double); string to_string(long);
double stod(const string&); int stoi(const string&);
class string_view { public: string_view(const char*); string_view(const string&); };
int isspace(int); int isdigit(int);

class exception { public: virtual ~exception(); virtual const char* what() const; };
#define VC_EXC(n, b) class n : public b { public: explicit n(const string&); explicit n(const char*); };
VC_EXC(runtime_error, exception) VC_EXC(logic_error, exception) VC_EXC(invalid_argument, logic_error) VC_EXC(out_of_range, logic_error) VC_EXC(domain_error, logic_error) VC_EXC(length_error, logic_error) VC_EXC(overflow_error, runtime_error) VC_EXC(range_error, runtime_error)

using streamsize = long; using streampos = long;
class ios_base { public: using openmode = int; using fmtflags = unsigned; static constexpr int in = 1, out = 2, binary = 4, ate = 8, app = 16, trunc = 32; bool fail() const; bool good() const; bool bad() const; bool eof() const; explicit operator bool() const; bool operator!() const; void clear(); void setstate(int); static constexpr int failbit = 1, badbit = 2, eofbit = 4;
  streamsize precision() const; streamsize precision(streamsize); fmtflags flags() const; fmtflags flags(fmtflags); };
using ios = ios_base;
class ostream : public ios_base { public: ostream& write(const char*, streamsize); ostream& put(char); ostream& flush(); ostream& operator<<(int); ostream& operator<<(unsigned long); ostream& operator<<(long); ostream& operator<<(double); ostream& operator<<(bool); ostream& operator<<(ostream& (*)(ostream&)); ostream& operator<<(ios_base& (*)(ios_base&)); };
ostream& operator<<(ostream&, const char*); ostream& operator<<(ostream&, const string&); ostream& operator<<(ostream&, char);
class istream : public ios_base { public: istream& read(char*, streamsize); streamsize gcount() const; istream& get(char&); int get(); int peek(); istream& ignore(streamsize = 1, int = -1); istream& operator>>(int&); istream& operator>>(double&); istream& operator>>(unsigned long&); istream& operator>>(istream& (*)(istream&)); streampos tellg(); istream& seekg(streampos); };
istream& operator>>(istream&, string&); istream& operator>>(istream&, char&); istream& ws(istream&);
istream& getline(istream&, string&); istream& getline(istream&, string&, char);
class iostream : public istream, public ostream { };
class stringstream : public istream { public: stringstream(); explicit stringstream(const string&); string str() const; void str(const string&); ostream& operator<<(int); ostream& operator<<(double); };
class istringstream : public istream { public: istringstream(); explicit istringstream(const string&); string str() const; };
class ostringstream : public ostream { public: ostringstream(); explicit ostringstream(const string&); string str() const; };
class ifstream : public istream { public: ifstream(); explicit ifstream(const string&, int = 1); explicit ifstream(const char*, int = 1); bool is_open() const; void open(const string&, int = 1); void close(); };
class ofstream : public ostream { public: ofstream(); explicit ofstream(const string&, int = 2); bool is_open() const; void open(const string&, int = 2); void close(); };
struct __setp { int n; }; __setp setprecision(int); __setp setw(int); ostream& operator<<(ostream&, __setp);
ios_base& fixed(ios_base&); ios_base& scientific(ios_base&); ios_base& defaultfloat(ios_base&); ios_base& hexfloat(ios_base&); ostream& endl(ostream&); ios_base& skipws(ios_base&);
extern ostream cout, cerr; extern istream cin;

inline constexpr size_t dynamic_extent = ~0ul;
template<class I, size_t... E> class extents { public: extents(); };
template<class T, class X> class mdspan { public: mdspan(T*, int, int); template<class A, class B> T& operator[](A, B) const; int extent(int) const; };
namespace numbers { inline constexpr double pi = 3.14159265358979323846; }
}
using std::abs; using std::fabs; using std::sqrt;
