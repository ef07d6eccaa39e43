// Analysis driver: includes the whole library and instantiates, through the public
// API only, the member templates the rules talk about, so that clang resolves every
// callee and every type.  It is parsed, never linked and never run.
#include <cmdr-cxx.hh>
#include <cmdr11/cmdr_small_string.hh>
#include <cmdr11/cmdr_priority_queue.hh>

namespace drv {
  using namespace std::literals;

  // ---- explicit class instantiations (all non-template members)
  struct ev { int v{}; };
  struct obs : cmdr::util::observer<ev> { void observe(ev const &) override {} };
} // namespace drv

template class cmdr::util::observable<drv::ev, true, true>;
template class cmdr::util::observable<drv::ev, true, false>;
template class cmdr::util::observable<drv::ev, false, false>;
template struct cmdr::util::registerer<drv::ev>;
template class cmdr::util::observable_bindable<drv::ev>;
template class cmdr::mmap::mmap<true, true>;
template class cmdr::mmap::mmap<false, false>;
template class cmdr::mmap::mmap_um<true, true>;
template class cmdr::mmap::mmap_um<false, false>;
template class cmdr::pool::threaded_message_queue<int>;
template class cmdr::pool::conditional_wait<int>;
template class cmdr::debug::SignalInstaller<SIGBUS>;
template class cmdr::string::small_string_preallocated<16>;
template class cmdr::string::small_string_preallocated<64>;
template class cmdr::util::singleton_with_optional_construction_args<drv::ev>;
template class cmdr::util::cool::lock_guard<std::mutex>;

namespace drv {
  struct closer { void close() {} };
  inline void use_common() {
    auto p = std::make_unique<closer>();
    (void) p;
    closer c;
    std::function<void()> fn = [] {};
    cmdr::util::defer<closer, std::function<void()>> d1(c, fn);
    cmdr::util::defer<bool> d2([] {});
    (void) d1;
    (void) d2;
    cmdr::util::observable<ev> o;
    std::shared_ptr<cmdr::util::observer<ev>> w = std::make_shared<obs>();
    o += w;
    o -= w;
    o.emit(ev{});
    cmdr::util::registerer<ev> r(o, w);
    cmdr::util::observable_bindable<ev> ob;
    ob.add_callback([](ev const &) {});
    ob.on([](ev const &) {});
    ob.emit(ev{});
    cmdr::util::signal<int> s;
    s.connect([](int) {});
    s.on([](int) {});
    s.emit(1);
    cmdr::util::signal<std::string, float> s2;
    s2.connect([](std::string const &, float) {});
    s2.on([](std::string const &, float) {});
    s2.emit(std::string{"x"}, 1.f);
    (void) cmdr::util::is_in(1, 2, 3);
  }
  inline void use_chrono() {
    std::tm tm{};
    auto tp = std::chrono::system_clock::now();
    (void) cmdr::chrono::format_duration(1500ms);
    (void) cmdr::chrono::duration_is_zero(tp);
    (void) cmdr::chrono::tm_2_time_point(tm);
    (void) cmdr::chrono::tm_2_time_point(&tm);
    (void) cmdr::chrono::time_point_2_tm(tp);
    (void) cmdr::chrono::time_t_2_tm(time_t{});
    (void) cmdr::chrono::format_time_point_to_local(tp);
    (void) cmdr::chrono::last_day_at_this_month(tm);
    (void) cmdr::chrono::last_day_at_this_year(tm);
    (void) cmdr::chrono::compare_date_part(tp, tp);
    (void) cmdr::chrono::try_parse_by(tm, "2020-01-01"s, "%Y");
    (void) cmdr::chrono::parse_datetime("2020-01-01");
  }
  inline void use_pool() {
    cmdr::pool::conditional_wait_for_bool cb;
    (void) cb.wait_for(1ms);
    (void) cb.wait_until(std::chrono::system_clock::now());
    cb.set();
    cb.set_for_all();
    cb.wait();
    (void) cb.val();
    cmdr::pool::conditional_wait_for_int ci;
    (void) ci.val();
    ci.wait();
    ci.set();
    cmdr::pool::threaded_message_queue<int> q;
    q.emplace_back(1);
    (void) q.pop_front();
    (void) q.empty();
    q.clear();
    cmdr::pool::thread_pool tp(2);
    auto job = [] {};
    (void) tp.queue_task([] {});
    auto const &cjob = job;
    (void) tp.queue_task(std::move(job));
    (void) cjob;
    (void) tp.active_threads();
    tp.join();
    cmdr::pool::thread_pool_lite tl(2);
    (void) tl.enqueue([](int a) { return a; }, 1);
  }
  inline void use_strings() {
    using ss = cmdr::string::small_string_preallocated<16>;
    ss a, b("abc"), c(std::string("abc"));
    a = "abc";
    a = std::string("abc");
    a += b;
    a += "abc";
    a += std::string("x");
    (void) a.append(*"abc");
    (void) a.compare(b);
    (void) a.to_string();
    std::cout << a;
    (void) (a == b);
    std::string str{"abc"};
    cmdr::string::to_upper_t(str);
    cmdr::string::to_lower_t(str);
    std::ifstream ifs;
    std::istream &is = ifs;
    std::ostringstream oss;
    ::operator<<(std::cout, oss);
    ::operator<<(std::cout, ifs);
    ::operator<<(std::cout, is);
  }
  inline void use_queue() {
    cmdr::queue::priority_queue<int, int, std::function<int(int const &, int const &)>> q;
    q.push(1);
    q.push_back(1);
    (void) q.pop();
    q.pop_front();
    (void) q.size();
    (void) q.empty();
    auto it = q.begin();
    if (it != q.end()) { ++it; (void) *it; }
    (void) cmdr::queue::priority_queue<int, int, std::function<int(int const &, int const &)>>::is_null(0);
  }
  template<class T>
  inline void use_value(T v) {
    cmdr::vars::variable x{v};
    x = v;
    (void) x.as<T>();
    (void) x.cast_as<T>();
    auto const &cx = x;
    (void) cx.cast_as<T>();
    (void) cx.as<T>();
    cmdr::vars::store st;
    st.set_raw("a.b", v);
    st.set_raw_p("app", "a.b", v);
    st.set_raw_p("app", "a.b", x);
    st.set_raw_p("app", "a.b", cmdr::vars::variable{v});
    st.set_raw("a.b", x);
    st.set_raw("a.b", cmdr::vars::variable{v});
    (void) st.get_raw("a.b");
    (void) st.get_raw(std::string("a.b"));
    (void) st.get_raw_p("app", "a.b");
    (void) st.get_raw_p(std::string("app"), std::string("a.b"));
    auto const &cst = st;
    (void) cst.get_raw("a.b");
    (void) cst.get_raw(std::string("a.b"));
    (void) cst.get_raw_p("app", "a.b");
    (void) cst.get_raw_p(std::string("app"), std::string("a.b"));
    (void) cst.has("app", "x");
    (void) st.subtree("app");
    (void) st.root();
    (void) cst.root();
    (void) st.root().get_raw("a");
    (void) cst.root().get_raw("a");
    st.reset();
    cmdr::get_app().set("k", v);
    cmdr::set("k", v);
    cmdr::set("k", x);
    (void) cmdr::get<T>("k");
    (void) cmdr::get<T>(std::string("k"));
    (void) cmdr::get_for_cli<T>("k");
    (void) cmdr::get_for_cli<T>(std::string("k"));
    cmdr::opt::opt o{v};
    o("long", "s");
    o(std::string("long"), std::string("s"));
    o("long", "s", "alias");
    cmdr::opt::arg a;
    a.default_value(v);
  }
  inline void use_store() {
    use_value(1);
    use_value(true);
    use_value(std::string("x"));
    use_value(1.0);
    cmdr::vars::store st;
    cmdr::vars::variable x{std::string("x")};
    std::cout << x;
    std::string ps("1"); x.parse(ps);
    st.dump_full_keys(std::cout);

    st.dump_tree(std::cout);
  }
  // every way of copying or moving one object of T to another, as overload resolution decides it
  template<class T>
  inline void copies(T &a, T const &ca) {
    T x(a);
    T y(ca);
    T z(std::move(a));
    x = a;
    y = ca;
    z = std::move(x);
  }
  template<class T>
  inline void copy_ctors(T &a, T const &ca) {
    T x(a);
    T y(ca);
    T z(std::move(a));
  }
  inline void use_copies() {
    (void) &copies<cmdr::opt::bas>;
    (void) &copies<cmdr::opt::arg>;
    (void) &copies<cmdr::opt::cmd>;
    (void) &copies<cmdr::opt::sub_cmd>;
    (void) &copies<cmdr::vars::variable>;
    (void) &copies<cmdr::string::small_string_preallocated<16>>;
    (void) &copy_ctors<cmdr::vars::nodeT<cmdr::vars::variable, std::string>>;
  }
  inline void use_app() {
    auto &cli = cmdr::cli("a", "1.0", "me", "", "");
    cmdr::opt::sub_cmd c{};
    cli += c("x", "y");
  }
} // namespace drv
