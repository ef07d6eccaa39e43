From c155b91feb5bd07ee9487c8824d0cce08514b8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:12 +0000
Subject: [PATCH 01/34] fix: looking up a short command name overwrote the
 long-name table

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 8060aae..a9b8c72 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -244,9 +244,9 @@ namespace cmdr {
       auto *p2    = it->second;
       cmr.obj     = (opt::cmd *) &(p2->update_hit_count(pc.title, 1, true));
     } else {
-      li              = c._short_commands;
-      auto const &it1 = li.find(pc.title);
-      if (it1 != li.end()) {
+      opt::types::indexed_commands &si = c._short_commands;
+      auto const &it1                  = si.find(pc.title);
+      if (it1 != si.end()) {
         cmr.matched = true;
         auto *p2    = it1->second;
         cmr.obj     = (opt::cmd *) &(p2->update_hit_count(pc.title, 1, false));
-- 
2.43.0


From a33c1ae459bdabd7a8a23c8a97d670664139a2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:39 +0000
Subject: [PATCH 02/34] fix: app::reset left toggle groups pointing at the
 flags it destroyed

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index a9b8c72..1a9a5e2 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -751,6 +751,8 @@ namespace cmdr {
     _indexed_args.clear();
     _short_args.clear();
     _long_args.clear();
+    _hit_toggle_groups.clear();
+    _toggle_groups.clear();
     _all_commands.clear();
     _grouped_commands.clear();
     _indexed_commands.clear();
-- 
2.43.0


From 26941019e37faca9777836a4464ba01054c42992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:19 +0000
Subject: [PATCH 03/34] fix: post-invoke hooks ran twice when one of them threw

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 34 +++++++++++--------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 1a9a5e2..842a1a0 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -554,6 +554,16 @@ namespace cmdr {
         rc = c.on_pre_invoke()(c, remain_args);
       }
     }
+
+    auto const post_invoke = [&]() {
+      if (c.on_post_invoke()) {
+        c.on_post_invoke()(c, remain_args);
+      }
+      if (_global_on_post_invoke) {
+        _global_on_post_invoke(c, remain_args);
+      }
+    };
+
     try {
       if (rc == 0) {
         if (c.on_invoke()) {
@@ -568,27 +578,13 @@ namespace cmdr {
 #endif
         }
       }
-
-      if (c.on_post_invoke()) {
-        c.on_post_invoke()(c, remain_args);
-      }
-      if (_global_on_post_invoke) {
-        _global_on_post_invoke(c, remain_args);
-      }
-
     } catch (...) {
-      if (c.on_post_invoke()) {
-        c.on_post_invoke()(c, remain_args);
-      }
-      if (_global_on_post_invoke) {
-        _global_on_post_invoke(c, remain_args);
-      }
-
-      std::exception_ptr eptr = std::current_exception();
-      if (eptr) {
-        std::rethrow_exception(eptr);
-      }
+      post_invoke();
+      throw;
     }
+
+    // out of the try-block: a throwing post-hook must not run the hooks again
+    post_invoke();
     return rc;
   }
 
-- 
2.43.0


From 3bca1ce213f13d76b5613fe18f1280fd6911c716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 04/34] fix: a built-in action asked for by a flag callback was
 lost when the flag's value did not parse

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 842a1a0..17cb82b 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -200,7 +200,7 @@ namespace cmdr {
             << std::quoted(os1.str());
         std::cerr << osn.str() << '\n';
       }
-      return opt::Action::Continue;
+      return rc;
     }
 
     if (amr.should_abort) {
-- 
2.43.0


From e6cd970effd52db11358d3d3a2c691327cdeb9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 05/34] fix: copying a non-const arg picked the forwarding
 constructor and recursed without end

---
 libs/cmdr11/include/cmdr11/cmdr_arg.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_arg.hh b/libs/cmdr11/include/cmdr11/cmdr_arg.hh
index afa32c1..5462be9 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_arg.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_arg.hh
@@ -354,7 +354,8 @@ namespace cmdr::opt {
     // arg &operator=(const arg &o) = delete;
     arg(arg &&o) noexcept = default;
 #if 1
-    template<typename... Args>
+    template<typename... Args,
+             std::enable_if_t<!std::disjunction<std::is_base_of<arg, std::decay_t<Args>>...>::value, int> = 0>
     explicit arg(Args &&...args) {
       _default = std::make_shared<vars::variable>(args...);
     }
-- 
2.43.0


From 3ed3e0999bae397ee0f491e87a08fd8893287930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 06/34] fix: assigning or re-emplacing a variable nested it
 inside another value, or emptied the source

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index 5ae99f4..e8954b4 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -124,14 +124,10 @@ namespace cmdr::vars {
     //     : _value(std::move(a._value)) {}
     virtual ~variable() = default;
 
-    template<typename T>
-    variable &operator=(T const &o) {
-      _value = o;
-      return (*this);
-    }
-    template<typename T>
+    template<typename T,
+             std::enable_if_t<!std::is_base_of<self_type, std::decay_t<T>>::value, int> = 0>
     variable &operator=(T &&o) {
-      _value = std::move(o);
+      _value = std::forward<T>(o);
       return (*this);
     }
 
@@ -144,7 +140,8 @@ namespace cmdr::vars {
     //     (*this)._value.swap(o.value_any());
     // }
 
-    template<class... Args>
+    template<class... Args,
+             std::enable_if_t<!std::conjunction<std::is_same<std::decay_t<Args>, std::any>...>::value, int> = 0>
     void emplace(Args &&...args) {
       _value.template emplace<Args...>(args...);
       // auto v = {args...};
-- 
2.43.0


From c750028544459dcc04b9ee60c60c13ee3900a7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:01 +0000
Subject: [PATCH 07/34] fix: initialise the minimum of a default-constructed
 priority queue element

---
 libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh b/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
index 7844388..1af1273 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_priority_queue.hh
@@ -76,7 +76,7 @@ namespace cmdr::queue {
     };
     struct element {
       Container _list;
-      int _min_value;
+      int _min_value{};
       std::shared_ptr<element> _left{};
       std::shared_ptr<element> _right{};
       element()  = default;
-- 
2.43.0


From 5bfa3470d51f7c9b56efbe91e9f84b45d6ae7497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 08/34] fix: throw the errors detected while connecting a
 memory mapping

---
 libs/cmdr11/include/cmdr11/cmdr_mmap.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_mmap.hh b/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
index ca5be49..e9cbb2f 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
@@ -155,7 +155,7 @@ namespace cmdr::mmap {
     inline void mmaplib::connect(bool writeable, bool shareable, FILE_HANDLE fd) {
 #if defined(_WIN32)
       if (fd == INVALID_HANDLE_VALUE) {
-        std::runtime_error("");
+        throw std::runtime_error("mmaplib: invalid file handle");
       }
 
       hFile_    = fd;
@@ -165,7 +165,7 @@ namespace cmdr::mmap {
 
       if (hMapping_ == NULL) {
         cleanup();
-        std::runtime_error("");
+        throw std::runtime_error("mmaplib: CreateFileMapping failed");
       }
 
       // https://docs.microsoft.com/en-us/windows/win32/api/memoryapi/nf-memoryapi-mapviewoffile
@@ -173,14 +173,14 @@ namespace cmdr::mmap {
       UNUSED(shareable);
 #else
       if (fd == -1) {
-        std::runtime_error("");
+        throw std::runtime_error("mmaplib: invalid file handle");
       }
 
       fd_ = fd;
       struct stat sb;
       if (fstat(fd, &sb) == -1) {
         cleanup();
-        std::runtime_error("");
+        throw std::runtime_error("mmaplib: fstat failed");
       }
       size_ = sb.st_size;
 
@@ -190,7 +190,7 @@ namespace cmdr::mmap {
 
       if (addr_ == MAP_FAILED) {
         cleanup();
-        std::runtime_error("");
+        throw std::runtime_error("mmaplib: mapping failed");
       }
     }
 
-- 
2.43.0


From cc9b5de02dba4a7a8ad6a8af3316d0e528366b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 09/34] fix: copies and moves of a memory mapping own their
 handle and view

---
 libs/cmdr11/include/cmdr11/cmdr_mmap.hh | 67 ++++++++++++++++---------
 1 file changed, 44 insertions(+), 23 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_mmap.hh b/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
index e9cbb2f..ceb49bd 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_mmap.hh
@@ -15,6 +15,7 @@
 #include <unistd.h>
 #endif
 #include <stdexcept>
+#include <utility>
 
 #include "cmdr_defs.hh"
 #include "cmdr_path.hh"
@@ -49,41 +50,51 @@ namespace cmdr::mmap {
       mmaplib();
       ~mmaplib();
       mmaplib(const char *path, bool writeable, bool shareable);
-      mmaplib(mmaplib const &mm) { __copy(mm); }
-      mmaplib(mmaplib &&mm) { __copy(mm); }
+      mmaplib(mmaplib const &mm)
+          : mmaplib() { __copy(mm); }
+      mmaplib(mmaplib &&mm) noexcept
+          : mmaplib() { __move(mm); }
       mmaplib &operator=(mmaplib const &o) {
-        __copy(o);
+        if (this != &o) {
+          cleanup();
+          __copy(o);
+        }
         return (*this);
       }
-      mmaplib &operator=(mmaplib &&o) {
-        __copy(o);
+      mmaplib &operator=(mmaplib &&o) noexcept {
+        if (this != &o) {
+          cleanup();
+          __move(o);
+        }
         return (*this);
       }
 
     private:
+      // both work on an object which holds nothing yet
+
+      // a copy has its own handle and its own view
       void __copy(mmaplib const &mm) {
+        if (!mm.is_open())
+          return;
 #if defined(_WIN32)
-        ::DuplicateHandle(GetCurrentProcess(), mm.hFile_, GetCurrentProcess(), &hFile_, 0, FALSE, DUPLICATE_SAME_ACCESS);
-        ::DuplicateHandle(GetCurrentProcess(), mm.hMapping_, GetCurrentProcess(), &hMapping_, 0, FALSE, DUPLICATE_SAME_ACCESS);
+        FILE_HANDLE fd = INVALID_HANDLE_VALUE;
+        ::DuplicateHandle(GetCurrentProcess(), mm.hFile_, GetCurrentProcess(), &fd, 0, FALSE, DUPLICATE_SAME_ACCESS);
 #else
-        fd_    = dup2(0, mm.fd_);
+        FILE_HANDLE fd = dup(mm.fd_);
 #endif
-        size_ = mm.size_;
-        addr_ = mm.addr_;
+        connect(mm.writeable_, mm.shareable_, fd);
       }
-      void __copy(mmaplib &&mm) {
+      void __move(mmaplib &mm) noexcept {
 #if defined(_WIN32)
-        hFile_       = mm.hFile_;
-        hMapping_    = mm.hMapping_;
-        mm.hFile_    = INVALID_HANDLE_VALUE;
-        mm.hMapping_ = NULL;
+        std::swap(hFile_, mm.hFile_);
+        std::swap(hMapping_, mm.hMapping_);
 #else
-        fd_    = mm.fd_;
-        mm.fd_ = INVALID_HANDLE_VALUE;
+        std::swap(fd_, mm.fd_);
 #endif
-        size_    = mm.size_;
-        addr_    = mm.addr_;
-        mm.addr_ = nullptr;
+        std::swap(size_, mm.size_);
+        std::swap(addr_, mm.addr_);
+        std::swap(writeable_, mm.writeable_);
+        std::swap(shareable_, mm.shareable_);
       }
 
     public:
@@ -107,6 +118,8 @@ namespace cmdr::mmap {
 #endif
       std::size_t size_;
       void *addr_;
+      bool writeable_{};
+      bool shareable_{};
     };
 
 #if defined(_WIN32)
@@ -158,8 +171,12 @@ namespace cmdr::mmap {
         throw std::runtime_error("mmaplib: invalid file handle");
       }
 
-      hFile_    = fd;
-      size_     = ::GetFileSize(fd, NULL);
+      if (fd != hFile_)
+        cleanup(); // what was connected before
+      hFile_     = fd;
+      writeable_ = writeable;
+      shareable_ = shareable;
+      size_      = ::GetFileSize(fd, NULL);
 
       hMapping_ = ::CreateFileMapping(hFile_, NULL, (writeable ? PAGE_READWRITE : PAGE_READONLY), 0, 0, NULL);
 
@@ -176,7 +193,11 @@ namespace cmdr::mmap {
         throw std::runtime_error("mmaplib: invalid file handle");
       }
 
-      fd_ = fd;
+      if (fd != fd_)
+        cleanup(); // what was connected before
+      fd_        = fd;
+      writeable_ = writeable;
+      shareable_ = shareable;
       struct stat sb;
       if (fstat(fd, &sb) == -1) {
         cleanup();
-- 
2.43.0


From 1d6506d335c72a5fd96d3b61407decaa1910caea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:08 +0000
Subject: [PATCH 10/34] fix: absent environment variables and stack symbols are
 tested before use

---
 libs/cmdr11/include/cmdr11/cmdr_app_inl.h | 6 ++++--
 libs/cmdr11/include/cmdr11/cmdr_dbg.hh    | 8 +++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
index f855015..6d11a70 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
@@ -728,7 +728,8 @@ fi
     }
     auto *exe_name = szbuf.c_str();
 #else
-    auto *exe_name   = std::getenv("EXE_NAME");
+    const auto *exe_env  = std::getenv("EXE_NAME");
+    const auto *exe_name = exe_env ? exe_env : "";
 #endif
 
     const auto *name    = get_for_cli("generate.shell.name").as<const_chars>();
@@ -754,7 +755,8 @@ fi
     }
     auto* appver = szbuf1.c_str();
 #else
-    char *appver = std::getenv("APP_VERSION");
+    const char *appver_env = std::getenv("APP_VERSION");
+    const char *appver     = appver_env ? appver_env : "";
 #endif
     string::replace_all(contents, "%{APP_VERSION}", appver);
 
diff --git a/libs/cmdr11/include/cmdr11/cmdr_dbg.hh b/libs/cmdr11/include/cmdr11/cmdr_dbg.hh
index fa6a80d..f996209 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_dbg.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_dbg.hh
@@ -465,6 +465,8 @@ namespace cmdr::debug {
     }
 
     char **symbollist = backtrace_symbols(addrlist, addrlen);
+    if (!symbollist)
+      return ret;
 
     for (int i = 1 + skip; i < addrlen; i++) {
       ret.emplace_back(symbollist[i]);
@@ -501,6 +503,10 @@ namespace cmdr::debug {
     // resolve addresses into strings containing "filename(function+address)",
     // this array must be free()-ed
     char **symbollist   = backtrace_symbols(addrlist, addrlen);
+    if (!symbollist) {
+      fprintf(out, "  <no symbols>\n");
+      return;
+    }
 
     // allocate string which will be filled with the demangled function name
     size_t funcnamesize = 256;
@@ -790,7 +796,7 @@ namespace cmdr::debug {
       void *trace_elems[20];
       const int trace_elem_count(backtrace(trace_elems, 20));
       char **stack_syms(backtrace_symbols(trace_elems, trace_elem_count));
-      for (int i = 0; i < trace_elem_count; ++i) {
+      for (int i = 0; stack_syms && i < trace_elem_count; ++i) {
         std::cout << stack_syms[i] << "\n";
       }
       free(stack_syms);
-- 
2.43.0


From 4573669481f2938fc33be186a54b86a597e0a42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:36 +0000
Subject: [PATCH 11/34] fix: enable_feel_like_mode stored the switch under a
 key nothing reads

---
 libs/cmdr11/include/cmdr11/cmdr_app.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_app.hh b/libs/cmdr11/include/cmdr11/cmdr_app.hh
index 6395388..60e5ce9 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_app.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_app.hh
@@ -210,7 +210,7 @@ namespace cmdr {
      * @return
      */
     app &enable_feel_like_mode(bool b = true) {
-      set("feel-like", b);
+      _store.set_raw_p(_long.c_str(), "feel-like", b);
       return (*this);
     }
 
-- 
2.43.0


From 24ffad51b9d37f372e7bad066db241e8a695096f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:36 +0000
Subject: [PATCH 12/34] fix: naming the toggle group of a flag overwrote its
 help group

---
 libs/cmdr11/include/cmdr11/cmdr_arg.hh | 1 -
 1 file changed, 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_arg.hh b/libs/cmdr11/include/cmdr11/cmdr_arg.hh
index 5462be9..a689972 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_arg.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_arg.hh
@@ -494,7 +494,6 @@ namespace cmdr::opt {
 
     arg &toggle_group(const_chars s) {
       if (s) _toggle_group = s;
-      if (!bas::_group.empty()) bas::_group = _toggle_group;
       return (*this);
     }
 
-- 
2.43.0


From 17729dc0c194c0e5f76759f7dd179b700fa69f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:12 +0000
Subject: [PATCH 13/34] fix: creating an application without author and
 copyright built strings from null

---
 libs/cmdr11/include/cmdr11/cmdr_app_inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
index 6d11a70..0ee22d5 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_app_inl.h
@@ -37,8 +37,8 @@ namespace cmdr {
                   const_chars examples_)
       : _name(name)
       , _version(version)
-      , _author(author)
-      , _copyright(copyright)
+      , _author(author ? author : "")
+      , _copyright(copyright ? copyright : "")
   // , _description(description)
   // , _examples(examples)
   {
-- 
2.43.0


From 9eacd33e7fb347418ee74b3ab9beb6a481c3d769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:47 +0000
Subject: [PATCH 14/34] fix: has() ignored the prefix and looked the bare key
 up

---
 libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h b/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
index 10a07a4..6e7bc99 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
@@ -129,7 +129,7 @@ namespace cmdr::vars {
     sk << key;
 
     std::shared_lock<std::shared_mutex> lock(mutex_);
-    auto it = _indexes.find(key);
+    auto it = _indexes.find(sk.str());
     if (it != _indexes.end()) {
       return true;
     }
-- 
2.43.0


From dbc97302f58a59676363de0615527a8ddc3e3dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 15/34] fix: dumping, walking, copying and descending the
 option store read it without its lock

---
 libs/cmdr11/include/cmdr11/cmdr_var_t.hh    |  1 +
 libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h | 30 ++++++++++++++++++---
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
index e8954b4..68ec38a 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t.hh
@@ -677,6 +677,7 @@ namespace cmdr::vars {
     nodeT()            = default;
     explicit nodeT(self_type const &o)
         : T{} {
+      std::shared_lock<std::shared_mutex> lock(o.mutex_);
       _parent   = o._parent;
       _indexes  = o._indexes;
       _children = o._children;
diff --git a/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h b/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
index 6e7bc99..6f79b33 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_var_t_inl.h
@@ -47,6 +47,7 @@ namespace cmdr::vars {
 
   template<class T, class small_string>
   inline auto nodeT<T, small_string>::subtree(char const* prefix) -> node_pointer {
+    node_pointer keep;
     std::shared_lock<std::shared_mutex> lock(mutex_);
 
     auto vec = string::split(prefix, '.');
@@ -60,6 +61,9 @@ namespace cmdr::vars {
         if (idx==upr) {
           return v;
         }
+        auto next = v;
+        lock      = std::shared_lock<std::shared_mutex>(ptr->mutex_);
+        keep      = std::move(next);
         idx++;
         key = vec[idx];
         goto enter_child_tree;
@@ -147,7 +151,12 @@ namespace cmdr::vars {
     // auto fg = get_app()._dim_text_fg;
     // auto dim = get_app()._dim_text_dim;
 
-    for (auto const &[k, v]: _children) {
+    node_map children;
+    {
+      std::shared_lock<std::shared_mutex> lock(mutex_);
+      children = _children;
+    }
+    for (auto const &[k, v]: children) {
       std::stringstream ss;
       ss << *(v.get());
 
@@ -176,7 +185,12 @@ namespace cmdr::vars {
     // auto fg = get_app()._dim_text_fg;
     // auto dim = get_app()._dim_text_dim;
 
-    for (auto &[k, v]: _children) {
+    node_map children;
+    {
+      std::shared_lock<std::shared_mutex> lock(mutex_);
+      children = _children;
+    }
+    for (auto &[k, v]: children) {
       std::string dotted_key;
       {
         std::ostringstream dotted_key_ss;
@@ -256,7 +270,11 @@ namespace cmdr::vars {
           std::unordered_map<K, V> const &um,
           std::function<bool(std::pair<K, V> const &)> const &on_filter,
           Comp pred) const {
-    std::map<K, V> m(um.begin(), um.end(), pred);
+    std::map<K, V> m(pred);
+    {
+      std::shared_lock<std::shared_mutex> lock(mutex_);
+      m.insert(um.begin(), um.end());
+    }
     map_streamer<K, V> ms{os, c, dim_text_fg, dim_text_dim, on_filter};
     std::for_each(m.begin(), m.end(), ms);
   }
@@ -268,7 +286,11 @@ namespace cmdr::vars {
           std::unordered_map<K, V> const &um,
           std::function<void(std::pair<K, V> const &)> const &cb,
           Comp comp) const {
-    std::map<K, V> m(um.begin(), um.end(), comp);
+    std::map<K, V> m(comp);
+    {
+      std::shared_lock<std::shared_mutex> lock(mutex_);
+      m.insert(um.begin(), um.end());
+    }
     std::for_each(m.begin(), m.end(), cb);
   }
 
-- 
2.43.0


From 5758d4ee19acd911fbb9138c4da1abc1584e9a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 16/34] fix: a duplicated long flag is reported as such, not as
 a duplicated short flag

---
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index f64a7bd..524f9c8 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -128,7 +128,7 @@ namespace cmdr::opt {
 
       if (auto const &it = _long_args.find(a.title_long()); it != _long_args.end())
         // cmdr_throw_line(std::string("duplicated long flag found: --") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
-        cmdr_throw_as(dup_short_flag_found, &a, this);
+        cmdr_throw_as(dup_long_flag_found, &a, this);
       _long_args.insert({a.title_long(), ptr});
 
       for (auto const &itz: a.title_aliases()) {
-- 
2.43.0


From 45f5d828afb51169a895cc769635e353c028a5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 17/34] fix: refuse a duplicated flag or command before any
 part of it is registered

---
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 64 +++++++++++++----------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index 524f9c8..44013e3 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -84,6 +84,22 @@ namespace cmdr::opt {
 
   inline void cmd::add(arg const &a) {
     if (a.valid()) {
+      // refuse a duplicate before any part of it is registered
+      if (!a.title_short().empty()) {
+        if (auto const &it = _short_args.find(a.title_short()); it != _short_args.end())
+          // cmdr_throw_line(std::string("duplicated short flag found: -") + a.title_short() + std::string(" ") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
+          cmdr_throw_as(dup_short_flag_found, &a, this);
+      }
+      if (auto const &it = _long_args.find(a.title_long()); it != _long_args.end())
+        // cmdr_throw_line(std::string("duplicated long flag found: --") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
+        cmdr_throw_as(dup_long_flag_found, &a, this);
+      std::set<std::string> names{a.title_long()};
+      for (auto const &itz: a.title_aliases()) {
+        if (auto const &it = _long_args.find(itz); it != _long_args.end() || !names.insert(itz).second)
+          // cmdr_throw_line(std::string("duplicated alias flag found: -") + itz + std::string(", parent cmd = ") + title_sequences());
+          cmdr_throw_as(dup_alias_flag_found, itz.c_str(), &a, this);
+      }
+
       auto gn = a.group_name();
       if (gn.empty()) {
         if (a.toggle_group_name().empty())
@@ -119,24 +135,11 @@ namespace cmdr::opt {
 #endif
       _indexed_args.insert({a.title_long(), ptr});
 
-      if (!a.title_short().empty()) {
-        if (auto const &it = _short_args.find(a.title_short()); it != _short_args.end())
-          // cmdr_throw_line(std::string("duplicated short flag found: -") + a.title_short() + std::string(" ") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
-          cmdr_throw_as(dup_short_flag_found, &a, this);
+      if (!a.title_short().empty())
         _short_args.insert({a.title_short(), ptr});
-      }
-
-      if (auto const &it = _long_args.find(a.title_long()); it != _long_args.end())
-        // cmdr_throw_line(std::string("duplicated long flag found: --") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
-        cmdr_throw_as(dup_long_flag_found, &a, this);
       _long_args.insert({a.title_long(), ptr});
-
-      for (auto const &itz: a.title_aliases()) {
-        if (auto const &it = _long_args.find(itz); it != _long_args.end())
-          // cmdr_throw_line(std::string("duplicated alias flag found: -") + itz + std::string(", parent cmd = ") + title_sequences());
-          cmdr_throw_as(dup_alias_flag_found, itz.c_str(), &a, this);
+      for (auto const &itz: a.title_aliases())
         _long_args.insert({itz, ptr});
-      }
 
       if (ptr->is_toggleable()) {
         if (ptr->default_value()->type() == typeid(bool)) {
@@ -163,6 +166,22 @@ namespace cmdr::opt {
 
   inline void cmd::add(cmd const &a) {
     if (a.valid()) {
+      // refuse a duplicate before any part of it is registered
+      if (!a.title_short().empty()) {
+        if (auto const &it = _short_commands.find(a.title_short()); it != _short_commands.end())
+          // cmdr_throw_line(std::string("duplicated short command found: ") + a.title_short() + std::string(" ") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
+          cmdr_throw_as(dup_short_cmd_found, &a, this);
+      }
+      if (auto const &it = _long_commands.find(a.title_long()); it != _long_commands.end())
+        // cmdr_throw_line(std::string("duplicated long command found: ") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
+        cmdr_throw_as(dup_long_cmd_found, &a, this);
+      std::set<std::string> names{a.title_long()};
+      for (auto const &itz: a.title_aliases()) {
+        if (auto const &it = _long_commands.find(itz); it != _long_commands.end() || !names.insert(itz).second)
+          // cmdr_throw_line(std::string("duplicated alias command found: ") + itz + std::string(", parent cmd = ") + title_sequences());
+          cmdr_throw_as(dup_alias_cmd_found, itz.c_str(), &a, this);
+      }
+
       auto gn = a.group_name();
       if (gn.empty()) {
         gn = UNSORTED_GROUP;
@@ -189,22 +208,11 @@ namespace cmdr::opt {
 #endif
 
       _indexed_commands.insert({a.title_long(), ptr});
-      if (!a.title_short().empty()) {
-        if (auto const &it = _short_commands.find(a.title_short()); it != _short_commands.end())
-          // cmdr_throw_line(std::string("duplicated short command found: ") + a.title_short() + std::string(" ") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
-          cmdr_throw_as(dup_short_cmd_found, &a, this);
+      if (!a.title_short().empty())
         _short_commands.insert({a.title_short(), ptr});
-      }
-      if (auto const &it = _long_commands.find(a.title_long()); it != _long_commands.end())
-        // cmdr_throw_line(std::string("duplicated long command found: ") + a.title_long() + std::string(", parent cmd = ") + title_sequences());
-        cmdr_throw_as(dup_long_cmd_found, &a, this);
       _long_commands.insert({a.title_long(), ptr});
-      for (auto const &itz: a.title_aliases()) {
-        if (auto const &it = _long_commands.find(itz); it != _long_commands.end())
-          // cmdr_throw_line(std::string("duplicated alias command found: ") + itz + std::string(", parent cmd = ") + title_sequences());
-          cmdr_throw_as(dup_alias_cmd_found, itz.c_str(), &a, this);
+      for (auto const &itz: a.title_aliases())
         _long_commands.insert({itz, ptr});
-      }
 
       _last_added_command = ptr;
       ptr->owner(this);
-- 
2.43.0


From 65251d29ad546f68ae38a5a2fc9744da0fd45ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 18/34] fix: choosing a toggle group member switches the other
 members off in the option store

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 17cb82b..42b4b5e 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -493,11 +493,12 @@ namespace cmdr {
 
     if (a->is_toggleable() && a->default_value()->type() == typeid(bool)) {
       auto *cc        = a->owner();
-      auto const &cck = a->dotted_key();
+      auto const &cck = cc->dotted_key();
       auto const &k   = a->toggle_group_name();
 
       for (auto *o: cc->_toggle_groups[k]) {
-        _store.set_raw_p(cck.c_str(), o->title_long().c_str(), false);
+        if (o != a)
+          _store.set_raw_p(cck.c_str(), o->title_long().c_str(), false);
       }
 
       cc->toggle_group_set(k, a);
-- 
2.43.0


From 6f68a3a49b11ae1aa01502a1f655a05f8dd34aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:54 +0000
Subject: [PATCH 19/34] fix: look at a message queue only under its mutex

threaded_message_queue::empty() read the container without the lock its
producers and consumers hold while they change it.
---
 libs/cmdr11/include/cmdr11/cmdr_pool.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_pool.hh b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
index 15e620f..2b3d3cb 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_pool.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
@@ -410,11 +410,14 @@ namespace cmdr::pool {
 
     ~threaded_message_queue() { clear(); }
 
-    bool empty() const { return _data.empty(); }
+    bool empty() const {
+      const locker l_(_m);
+      return _data.empty();
+    }
 
   private:
     std::condition_variable _cv{};
-    std::mutex _m{};
+    mutable std::mutex _m{};
     mutable Coll _data{};
     bool _abort = false;
   }; // class threaded_message_queue
-- 
2.43.0


From 72fb6bc5e9e7448728e85da7b00f6bffd0d33495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:54 +0000
Subject: [PATCH 20/34] fix: read the value of a condition wait under its mutex

conditional_wait::val() const (and timer_killer::terminated() with it) read
the variable without the lock under which set() and kill() change it; the
const accessor now returns a copy taken under the lock.
---
 libs/cmdr11/include/cmdr11/cmdr_pool.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_pool.hh b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
index 2b3d3cb..a76817c 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_pool.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_pool.hh
@@ -58,7 +58,7 @@ namespace cmdr::pool {
 
   protected:
     std::condition_variable _cv{};
-    std::mutex _m{};
+    mutable std::mutex _m{};
     T _var{};
 
   public:
@@ -149,7 +149,10 @@ namespace cmdr::pool {
 
     void clear() { _release(); }
 
-    T const &val() const { return _value(); }
+    T val() const {
+      std::unique_lock<std::mutex> const lk(_m);
+      return _value();
+    }
     T &val() { return _value(); }
 
   protected:
-- 
2.43.0


From 4a8e461aa66e24094d30023666697b762e8ccb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:30 +0000
Subject: [PATCH 21/34] fix: copy the observer list under the lock that
 replaces it

The copy-and-swap variants of observable::add_observer/remove_observer copied
the list before taking the lock: the copy raced with a concurrent swap, and
swapping in a list derived from a stale copy dropped observers another thread
had registered in between.
---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index e4925a9..a4f85c4 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -1013,9 +1013,9 @@ namespace cmdr::util {
     observable &add_observer(observer_t const &o) {
       if (AutoLock) {
         if (CNS) {
+          std::lock_guard _l(_m);
           auto copy = _observers;
           copy.push_back(o);
-          std::lock_guard _l(_m);
           _observers.swap(copy);
         } else {
           std::lock_guard _l(_m);
@@ -1029,9 +1029,9 @@ namespace cmdr::util {
       observer_t wp = o;
       if (AutoLock) {
         if (CNS) {
+          std::lock_guard _l(_m);
           auto copy = _observers;
           copy.push_back(wp);
-          std::lock_guard _l(_m);
           _observers.swap(copy);
         } else {
           std::lock_guard _l(_m);
@@ -1045,6 +1045,7 @@ namespace cmdr::util {
     observable &remove_observer(observer_t_naked *o) {
       if (AutoLock) {
         if (CNS) {
+          std::lock_guard _l(_m);
           auto copy = _observers;
           copy.erase(std::remove_if(copy.begin(), copy.end(), [o](observer_t const &rhs) {
                        if (auto spt = rhs.lock())
@@ -1052,7 +1053,6 @@ namespace cmdr::util {
                        return false;
                      }),
                      copy.end());
-          std::lock_guard _l(_m);
           _observers.swap(copy);
         } else {
           std::lock_guard _l(_m);
-- 
2.43.0


From cdfbf6c258a331e7d5d88b0a1717a7ce220d196a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:57 +0000
Subject: [PATCH 22/34] fix: give every slot of a signal its own copy of the
 arguments

signal::emit moved the arguments into each slot in turn: the first slot taking
one by value emptied it for all the following ones.
---
 libs/cmdr11/include/cmdr11/cmdr_common.hh | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_common.hh b/libs/cmdr11/include/cmdr11/cmdr_common.hh
index a4f85c4..5d4c33e 100644
--- a/libs/cmdr11/include/cmdr11/cmdr_common.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_common.hh
@@ -1201,7 +1201,7 @@ namespace cmdr::util {
      */
     signal &emit(SignalSubjects &&...event_or_subjects) {
       for (auto &fn: _callbacks)
-        fn(std::move(event_or_subjects)...);
+        fn(_each<SignalSubjects>(event_or_subjects)...);
       return (*this);
     }
     signal &operator()(SignalSubjects &&...event_or_subjects) { return emit(event_or_subjects...); }
@@ -1209,6 +1209,18 @@ namespace cmdr::util {
   private:
     void clear() {}
 
+    // what one slot gets: its own copy, so that a slot which consumes
+    // its argument doesn't take it away from the next one.
+    template<typename T>
+    static decltype(auto) _each(std::remove_reference_t<T> &v) {
+      if constexpr (std::is_lvalue_reference_v<T>)
+        return (v);
+      else if constexpr (std::is_copy_constructible_v<std::remove_reference_t<T>>)
+        return std::remove_reference_t<T>(v);
+      else
+        return std::move(v);
+    }
+
   private:
     std::vector<FN> _callbacks{};
   };
-- 
2.43.0


From b8898353a6d72e9defeac8d115b4fc729c37b7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:59 +0000
Subject: [PATCH 23/34] fix: printing help never ended on a terminal that
 leaves no room for the descriptions

---
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index 44013e3..91034b9 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -591,6 +591,7 @@ namespace cmdr::opt {
       std::ostringstream ss;
       auto d  = desc;
       auto rw = (std::size_t)((std::size_t)(tw <= 0 ? 1000 : tw) - wt_real - 2);
+      if (rw == 0) rw = d.length(); // no room left at all: don't wrap
       int w   = 0;
       do {
         if (w++ != 0) {
-- 
2.43.0


From 95218aaf7afbe7a66a72ebe706114886f7934a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:59 +0000
Subject: [PATCH 24/34] fix: groups sharing a sort prefix vanished from the
 help screen

---
 libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
index 91034b9..0a32229 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
+++ b/libs/cmdr11/include/cmdr11/cmdr_cmd_inl.h
@@ -394,9 +394,9 @@ namespace cmdr::opt {
 
   namespace detail {
 
-    inline std::map<std::string, std::string> sort_keys(types::grouped_cmd_list const &grouped_commands) {
+    inline std::multimap<std::string, std::string> sort_keys(types::grouped_cmd_list const &grouped_commands) {
       std::set<std::string> keys;
-      std::map<std::string, std::string> dotted_key_on_keys;
+      std::multimap<std::string, std::string> dotted_key_on_keys;
       auto nobody_num = std::stoi(NOBODY_GROUP_SORTER);
       for (auto &it: grouped_commands) {
         auto &title = it.first;
@@ -412,9 +412,9 @@ namespace cmdr::opt {
       return dotted_key_on_keys;
     }
 
-    inline std::map<std::string, std::string> sort_keys(types::grouped_arg_list const &grouped_args) {
+    inline std::multimap<std::string, std::string> sort_keys(types::grouped_arg_list const &grouped_args) {
       std::set<std::string> keys;
-      std::map<std::string, std::string> dotted_key_on_keys;
+      std::multimap<std::string, std::string> dotted_key_on_keys;
       auto nobody_num = std::stoi(NOBODY_GROUP_SORTER);
       for (auto &it: grouped_args) {
         keys.insert(it.first);
@@ -478,7 +478,7 @@ namespace cmdr::opt {
       return std::make_tuple(wf, ws, wa, w, valid_count);
     }
 
-    inline void populate_tab_stop_width(std::map<std::string, std::string> const &dotted_key_on_keys,
+    inline void populate_tab_stop_width(std::multimap<std::string, std::string> const &dotted_key_on_keys,
                                         types::grouped_cmd_list const &grouped_commands,
                                         bool show_hidden_items,
                                         int &wt) {
@@ -543,7 +543,7 @@ namespace cmdr::opt {
       return std::make_tuple(wf, ws, wa, w, valid_count);
     }
 
-    inline void populate_tab_stop_width(std::map<std::string, std::string> const &dotted_key_on_keys,
+    inline void populate_tab_stop_width(std::multimap<std::string, std::string> const &dotted_key_on_keys,
                                         types::grouped_arg_list const &grouped_args,
                                         bool show_hidden_items,
                                         int &wt) {
@@ -761,7 +761,7 @@ namespace cmdr::opt {
     if (shell_completion_mode) tw = 9999; // don't wrap the long line
 
     int count_all{};
-    std::map<std::string, std::string> dotted_key_on_keys = detail::sort_keys(_grouped_commands);
+    std::multimap<std::string, std::string> dotted_key_on_keys = detail::sort_keys(_grouped_commands);
     detail::populate_tab_stop_width(dotted_key_on_keys, _grouped_commands, show_hidden_items, wt);
 
     for (auto &it: dotted_key_on_keys) {
@@ -865,7 +865,7 @@ namespace cmdr::opt {
     if (shell_completion_mode) tw = 9999;
 
     int count_all{};
-    std::map<std::string, std::string> dotted_key_on_keys = detail::sort_keys(_grouped_args);
+    std::multimap<std::string, std::string> dotted_key_on_keys = detail::sort_keys(_grouped_args);
     detail::populate_tab_stop_width(dotted_key_on_keys, _grouped_args, show_hidden_items, wt);
 
     for (auto &it: dotted_key_on_keys) {
-- 
2.43.0


From 0e3d7e549932954c6dab4bb21b6fb2e85cc851f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:45 +0000
Subject: [PATCH 25/34] fix: read_until with a delimiter of several characters
 never ended

It stopped at the first character of the delimiter and looked for the
whole delimiter in front of it, and it went on after the end of the
input: reading '{' or '{}' into an empty variable filled the memory.
---
 libs/cmdr11/include/cmdr11/cmdr_string.hh | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_string.hh b/libs/cmdr11/include/cmdr11/cmdr_string.hh
index 68372ef..9108248 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_string.hh
@@ -401,12 +401,16 @@ namespace cmdr::string {
 
   inline std::string read_until(std::istream &in, char const *delimiter = ",") {
     std::string cr;
-    char de   = *delimiter;
     size_t sz = std::strlen(delimiter), tot;
+    char de   = sz ? delimiter[sz - 1] : *delimiter;
     do {
       std::string temp;
-      std::getline(in, temp, de);
-      cr += temp + de;
+      if (!std::getline(in, temp, de))
+        return cr; // the input ended without the delimiter
+      cr += temp;
+      if (in.eof())
+        return cr;
+      cr += de;
       tot = cr.size();
     } while ((tot < sz) || (cr.substr(tot - sz, sz) != delimiter));
     return cr.substr(0, tot - sz); // or return cr; if you want to keep the delimiter
-- 
2.43.0


From 9a1d05d240166caf477f1dae74d8e608314dd348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:45 +0000
Subject: [PATCH 26/34] fix: strip_quotes kept the closing quote and read in
 front of the text

The end position was passed as a length ('abc' in quotes gave abc'), and a
text of quotes only was scanned backwards past its first character.
---
 libs/cmdr11/include/cmdr11/cmdr_string.hh | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_string.hh b/libs/cmdr11/include/cmdr11/cmdr_string.hh
index 9108248..830d806 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_string.hh
@@ -444,11 +444,10 @@ namespace cmdr::string {
 
   inline std::string strip_quotes(const std::string &str) {
     if (str.empty()) return str;
-    std::size_t p1 = 0, p2 = str.length() - 1;
-    while (str[p1] == '"' || str[p1] == '\'') p1++;
-    while (str[p2] == '"' || str[p2] == '\'') p2--;
-    if (p2 + 1 < p1) p2 = p1 - 1;
-    return str.substr(p1, p2 + 1);
+    std::size_t p1 = 0, p2 = str.length();
+    while (p1 < p2 && (str[p1] == '"' || str[p1] == '\'')) p1++;
+    while (p2 > p1 && (str[p2 - 1] == '"' || str[p2 - 1] == '\'')) p2--;
+    return str.substr(p1, p2 - p1);
   }
 
   inline void strip_quotes(std::istream &is, std::string &s) {
-- 
2.43.0


From 0322b282869ffc4a07adc7d8e96d20b942c46a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:27 +0000
Subject: [PATCH 27/34] fix: expand_env never ended on a variable that refers
 to itself

With A='x$A' every replacement put another reference back.
---
 libs/cmdr11/include/cmdr11/cmdr_string.hh | 32 ++++++++++++++---------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_string.hh b/libs/cmdr11/include/cmdr11/cmdr_string.hh
index 830d806..bb966d8 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_string.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_string.hh
@@ -505,28 +505,36 @@ namespace cmdr::string {
   }
 
 
-  inline std::string expand_env(std::string text) {
+  inline std::string expand_env(std::string const &text, std::vector<std::string> const &expanding = {}) {
     // static const std::regex env_re{R"--(\$\{?([^}]+)\}?)--"};
     static const std::regex env_re{R"(\$\{?([a-z0-9_]+)\}?)", std::regex::icase};
+    std::string out;
     std::smatch match;
-    while (std::regex_search(text, match, env_re)) {
-      auto const &from     = match[0];
-      auto const &th       = match[1];
-      auto const &var_name = th.str();
+    auto pos = text.begin();
+    while (std::regex_search(pos, text.end(), match, env_re)) {
+      auto const var_name = match[1].str();
+      out.append(pos, match[0].first);
+      pos = match[0].second;
+      // a variable which refers to itself, directly or not, is expanded once
+      if (std::find(expanding.begin(), expanding.end(), var_name) != expanding.end())
+        continue;
+      auto nested = expanding;
+      nested.push_back(var_name);
 #if defined(_WIN32) || defined(_WIN64)
-      char* buf = nullptr;
+      char *buf = nullptr;
       size_t sz = 0;
-      if (_dupenv_s(&buf, &sz, var_name.c_str()) == 0 && buf != nullptr)
-      {
-        text.replace(from.first, from.second, buf);
+      if (_dupenv_s(&buf, &sz, var_name.c_str()) == 0 && buf != nullptr) {
+        out += expand_env(buf, nested);
         free(buf);
       }
 #else
-      auto *ptr            = std::getenv(var_name.c_str());
-      text.replace(from.first, from.second, ptr ? ptr : "");
+      auto *ptr = std::getenv(var_name.c_str());
+      if (ptr)
+        out += expand_env(ptr, nested);
 #endif
     }
-    return text;
+    out.append(pos, text.end());
+    return out;
   }
 
 
-- 
2.43.0


From c102c195d7a8b3e1a9dfeaf06c951a8ada7376ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:27 +0000
Subject: [PATCH 28/34] fix: an empty alias of a flag made parsing hang when
 the longest match is not asked for

It is a prefix of every input and consumes none of it.
---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 42b4b5e..6d5d547 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -269,7 +269,7 @@ namespace cmdr {
       auto z = li(ptr);
       // std::unordered_map<std::string, arg *> z{};
       for (auto &itz: z) {
-        if (string::has_prefix(title, itz.first)) {
+        if (!itz.first.empty() && string::has_prefix(title, itz.first)) {
           if (_longest_first) {
             if (itz.first.length() > static_cast<std::size_t>(amr.matched_length)) {
               amr.matched        = true;
-- 
2.43.0


From fc7b19a4fd6624039754ebcbbd7a9456bc43d4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:11 +0000
Subject: [PATCH 29/34] fix: a text option lost everything after the first
 space of its value

--message 'hello world' stored 'hello' (the rest was dropped), and
--message='hello world' ended in 'unknown flag'.
---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 35 ++++++++++++++++---------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 6d5d547..80101e5 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -119,21 +119,30 @@ namespace cmdr {
           extra_argv = true;
         }
 
-        std::stringstream sst(remains);
         opt::arg::var_type &val = amr.obj->default_value();
-        auto xb                 = sst.tellg();
-        sst >> *val.get();
-        auto xe      = sst.tellg();
-        int read     = static_cast<int>(xe - xb);
-        value_parsed = read > 0 || sst.eof();
-        if (!value_parsed) {
-          if (extra_argv) {
-            --pc.index; // restore the parsing pointer
+        if (typ == typeid(std::string) || typ == typeid(char const *)) {
+          // a text takes the whole word, with the spaces in it
+          if (!remains.empty())
+            *val = string::strip_quotes(remains);
+          value_parsed = true;
+          if (!extra_argv)
+            amr.matched_length += (int) remains_orig_len;
+        } else {
+          std::stringstream sst(remains);
+          auto xb = sst.tellg();
+          sst >> *val.get();
+          auto xe      = sst.tellg();
+          int read     = static_cast<int>(xe - xb);
+          value_parsed = read > 0 || sst.eof();
+          if (!value_parsed) {
+            if (extra_argv) {
+              --pc.index; // restore the parsing pointer
+            }
+          } else if (read > 0) {
+            amr.matched_length += read;
+          } else if (!extra_argv) {
+            amr.matched_length += (int) remains_orig_len;
           }
-        } else if (read > 0) {
-          amr.matched_length += read;
-        } else if (!extra_argv) {
-          amr.matched_length += (int) remains_orig_len;
         }
 
         pc.add_matched_arg(amr.obj, val);
-- 
2.43.0


From 65cd8357a02f694a03abb5a0a3953cb033927e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:11 +0000
Subject: [PATCH 30/34] fix: the '=' and quotes in front of a flag's value are
 consumed with it

'--name= value' and '-n=4x' took the value but left the '=' (or the last
characters of the value) to be parsed again as an unknown flag.
---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 80101e5..38fa97d 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -110,10 +110,14 @@ namespace cmdr {
         // try solving the following input as value of this matched arg.
         auto remains          = pc.title.substr(pc.pos + amr.matched_length);
         auto remains_orig_len = remains.length();
+        std::size_t skipped{}; // the '=' and the quotes in front of the value
         if (remains[0] == '=') {
           remains = remains.substr(1);
+          skipped++;
         }
-        remains = string::strip_quotes(remains);
+        auto const quoted = remains;
+        remains           = string::strip_quotes(quoted);
+        skipped += quoted.find(remains);
         if (remains.empty() && pc.index + 1 < argc) {
           remains    = argv[++pc.index];
           extra_argv = true;
@@ -125,8 +129,7 @@ namespace cmdr {
           if (!remains.empty())
             *val = string::strip_quotes(remains);
           value_parsed = true;
-          if (!extra_argv)
-            amr.matched_length += (int) remains_orig_len;
+          amr.matched_length += (int) remains_orig_len;
         } else {
           std::stringstream sst(remains);
           auto xb = sst.tellg();
@@ -138,9 +141,9 @@ namespace cmdr {
             if (extra_argv) {
               --pc.index; // restore the parsing pointer
             }
-          } else if (read > 0) {
-            amr.matched_length += read;
-          } else if (!extra_argv) {
+          } else if (read > 0 && !extra_argv) {
+            amr.matched_length += (int) skipped + read;
+          } else {
             amr.matched_length += (int) remains_orig_len;
           }
         }
-- 
2.43.0


From d0148419001dc5e207705f8670175da20143dab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:32 +0000
Subject: [PATCH 31/34] fix: a word that cannot be converted leaves the flag's
 value alone

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 38fa97d..5529643 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -131,6 +131,7 @@ namespace cmdr {
           value_parsed = true;
           amr.matched_length += (int) remains_orig_len;
         } else {
+          auto const kept = *val;
           std::stringstream sst(remains);
           auto xb = sst.tellg();
           sst >> *val.get();
@@ -138,6 +139,7 @@ namespace cmdr {
           int read     = static_cast<int>(xe - xb);
           value_parsed = read > 0 || sst.eof();
           if (!value_parsed) {
+            *val = kept; // the failed conversion has overwritten it
             if (extra_argv) {
               --pc.index; // restore the parsing pointer
             }
-- 
2.43.0


From 6196cf3a8da52653afc433c49c85039fbcd0d6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:28 +0000
Subject: [PATCH 32/34] fix: only the flag that is matched counts as given

While the longest matching name was looked for, each shorter one met on the
way was counted as hit: '--message' satisfied a required flag '--me'.
---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index 5529643..eb43158 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -289,17 +289,13 @@ namespace cmdr {
               amr.matched        = true;
               amr.matched_length = (int) itz.first.length();
               amr.matched_str    = itz.first;
-              is_long |= itz.second->hit_long();
-              is_special |= itz.second->hit_special();
-              amr.obj = (cmdr::opt::arg *) &(itz.second->update_hit_count(title.substr(0, itz.first.length()), 1, is_long, is_special));
+              amr.obj            = itz.second;
             }
           } else {
             amr.matched        = true;
             amr.matched_length = (int) itz.first.length();
             amr.matched_str    = itz.first;
-            is_long |= itz.second->hit_long();
-            is_special |= itz.second->hit_special();
-            amr.obj = (cmdr::opt::arg *) &(itz.second->update_hit_count(title.substr(0, itz.first.length()), 1, is_long, is_special));
+            amr.obj            = itz.second;
             break;
           }
         }
@@ -310,6 +306,10 @@ namespace cmdr {
         goto lookup_parents;
       }
     }
+
+    // a shorter name that was found first has not been given
+    if (amr.matched)
+      amr.obj->update_hit_count(amr.matched_str, 1, is_long || amr.obj->hit_long(), is_special || amr.obj->hit_special());
     return amr;
   }
 
-- 
2.43.0


From 876b8554c1f7329673081243f53b3a7b82c31aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:15 +0000
Subject: [PATCH 33/34] fix: an environment variable gave a text option only
 its first word

---
 libs/cmdr11/include/cmdr11/cmdr_impl.hh | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_impl.hh b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
index eb43158..f5c2257 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_impl.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_impl.hh
@@ -812,8 +812,15 @@ namespace cmdr {
 
   inline void app::apply_env_vars() {
     cmdr_verbose_debug("   - apply_env_vars ...");
+    // a text option takes the whole value, with the spaces in it
+    auto const put = [](vars::variable &v, char const *str) {
+      if (v.type() == typeid(std::string) || v.type() == typeid(char const *))
+        v = std::string(str);
+      else
+        std::stringstream(str) >> v;
+    };
     // auto env vars
-    _store.walk_by_full_keys([](std::pair<std::string, vars::store::node_pointer> const &val) {
+    _store.walk_by_full_keys([&put](std::pair<std::string, vars::store::node_pointer> const &val) {
       auto ks = string::reg_replace(val.first, R"([.-])", "_");
       string::to_upper(ks);
 #if defined(_WIN32) || defined(_WIN64)
@@ -821,14 +828,14 @@ namespace cmdr {
       size_t sz = 0;
       if (_dupenv_s(&buf, &sz, ks.c_str()) == 0 && buf != nullptr)
       {
-        std::stringstream(buf) >> (*val.second);
+        put(*val.second, buf);
         cmdr_verbose_debug("      ENV[%s (%s)] => %s", ks.c_str(), val.first.c_str(), buf);
         free(buf);
       }
 #else
       char *ptr = std::getenv(ks.c_str());
       if (ptr != nullptr) {
-        std::stringstream(ptr) >> (*val.second);
+        put(*val.second, ptr);
         cmdr_verbose_debug("      ENV[%s (%s)] => %s", ks.c_str(), val.first.c_str(), ptr);
       }
 #endif
@@ -854,7 +861,7 @@ namespace cmdr {
         if (ptr != nullptr) {
           auto dk = a.dotted_key();
           auto &v = _store.get_raw(dk);
-          std::stringstream(ptr) >> v;
+          put(v, ptr);
           cmdr_verbose_debug("      ENV[%s (%s)] => %s / %s", ev.c_str(), dk.c_str(), ptr, _store.get_raw(dk).as_string().c_str());
           a.default_value(v);
           a.update_hit_count_from_env(ev, 1);
-- 
2.43.0


From 5be65b43d23ea53fd7594764668e02fc4436b7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:00 +0000
Subject: [PATCH 34/34] fix: colour switched off for the process came back with
 the next colouriser created

---
 libs/cmdr11/include/cmdr11/cmdr_terminal.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
index 90ad0e3..089c5ee 100755
--- a/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
+++ b/libs/cmdr11/include/cmdr11/cmdr_terminal.hh
@@ -175,7 +175,10 @@ namespace cmdr::terminal::colors {
     bool _colorful;
     static bool _default_colorful;
     static int _colors;
+    static bool _detected; // the terminal is asked only once
     static void _init() {
+      if (_detected) return;
+      _detected         = true;
       _default_colorful = terminfo::is_colorful();
       _colors           = terminfo::support_colors();
 #if defined(_DEBUG)
@@ -716,6 +719,7 @@ namespace cmdr::terminal::colors {
      * @param enable_colors
      */
     [[maybe_unused]] static void set_default_colorful(bool enable_colors = true) {
+      _init(); // or the next object would detect the terminal and undo this
       _default_colorful = enable_colors;
       if (enable_colors && _colors == 0) _colors = 256;
     }
@@ -807,6 +811,7 @@ namespace cmdr::terminal::colors {
   // }
 
   inline bool colorize::_default_colorful{};
+  inline bool colorize::_detected{};
   inline int colorize::_colors{};
 
 
-- 
2.43.0

