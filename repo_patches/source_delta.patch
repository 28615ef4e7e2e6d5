From ef9a076fb9fea932b0892dca6b32b82f4b39bd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 01/23] fix: squashSpaces must not look into an empty string

---
 src/Split.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Split.cxx b/src/Split.cxx
index 3491f38..a102f54 100644
--- a/src/Split.cxx
+++ b/src/Split.cxx
@@ -45,8 +45,8 @@ namespace SoDa {
     size_t pos = 0;
 
     // trim the string. 
-    while(ret.front() == ' ') ret.erase(0, 1);
-    while(ret.back() == ' ') ret.pop_back();
+    while(!ret.empty() && ret.front() == ' ') ret.erase(0, 1);
+    while(!ret.empty() && ret.back() == ' ') ret.pop_back();
     
     while((pos = ret.find(' ', pos)) != std::string::npos) {
       if((pos < ret.length() - 1) && (ret[pos+1] == ' ')) {
-- 
2.43.0


From 9ead4f5e3e73ebf97e3fab77d6861be8e488c0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 02/23] fix: no group separator between the sign and the first
 digit (addI)

---
 src/Format.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index 81c5fe9..61f84b5 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -162,7 +162,7 @@ namespace SoDa {
       std::string newstr;
       int i = 0; 
       for(auto c : vstr) {
-	if(i == 3) {
+	if((i == 3) && (c != '-')) {
 	  newstr = sep + newstr;
 	  i = 0; 
 	}
-- 
2.43.0


From 905cb40afcb280712caad00a059e15224050d3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 03/23] fix: group separators never land among the padding
 blanks (addU decimal)

---
 src/Format.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index 61f84b5..d5c9a98 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -210,7 +210,6 @@ namespace SoDa {
     case 'd':
     case 'D':
     default:
-      if(w != 0) pre_ss << std::setw(w);
       pre_ss << std::dec << v; 
       valstr = pre_ss.str();
       prefix = "";		
@@ -248,6 +247,10 @@ namespace SoDa {
       result = prefix + newstr; 
     }
 
+    // decimal values are padded after the separators are in place
+    if(not_hex && not_oct && (result.size() < w)) {
+      result.insert(0, w - result.size(), ' ');
+    }
     
     insertField(result);
     return *this;     
-- 
2.43.0


From 30cd2329befb35280ba703fa92a091b7eae40a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 04/23] fix: addF honours Format::separator in every
 representation

---
 src/Format.cxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index d5c9a98..7df91f9 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -492,7 +492,13 @@ namespace SoDa {
       }
     }
 
-    insertField(ss.str());
+    // use the configured radix separator whatever the representation
+    std::string fstr = ss.str();
+    size_t radix_pos = fstr.find('.');
+    if(radix_pos != std::string::npos) {
+      fstr[radix_pos] = separator;
+    }
+    insertField(fstr);
     return *this;     
   }
 
-- 
2.43.0


From 8045117527cf53896cbe5314c426166f0c206dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 05/23] fix: Format_ext takes the same arguments as Format
 (64-bit addU, addI fill)

---
 include/Format.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Format.hxx b/include/Format.hxx
index d20e841..e2bd254 100644
--- a/include/Format.hxx
+++ b/include/Format.hxx
@@ -582,12 +582,12 @@ namespace SoDa {
      * a reference to the derived class.   So do all the other 
      * shadow methods here. 
      */
-    T & addI(int v, unsigned int width = 0, char sep = '\000') { 
-      Format::addI(v, width, sep);
+    T & addI(int v, unsigned int width = 0, char sep = '\000', char fill = '\000') { 
+      Format::addI(v, width, sep, fill);
       return *saved_ptr; 
     }
 
-    T & addU(unsigned int v, char fmt = 'd', unsigned int width = 0,
+    T & addU(unsigned long v, char fmt = 'd', unsigned int width = 0,
 	     char sep = '\000',
 	     unsigned int group_count = 4) {
       Format::addU(v, fmt, width, sep, group_count);
-- 
2.43.0


From 5ee7a242e3515a8a5dfe060aae8be60c6d210ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:59 +0000
Subject: [PATCH 06/23] fix: signed vector options accept negative values

---
 include/Options.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Options.hxx b/include/Options.hxx
index 0f35472..993d612 100644
--- a/include/Options.hxx
+++ b/include/Options.hxx
@@ -586,7 +586,7 @@ posargs =
 	     const std::string & doc_str, 
 	     const std::function<bool(T)> & test_func = allGood, 
 	     const std::string & err_msg = std::string("")) :
-	OptBase(doc_str, err_msg, false), 
+	OptBase(doc_str, err_msg, std::is_signed<T>::value), 
 	argvec_p(v_vec), 
 	test_func(test_func)
       {
-- 
2.43.0


From cc21dc3ee78e09d81802e104807f125e5364cc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:59 +0000
Subject: [PATCH 07/23] fix: an option named last without a value is present

---
 src/Options.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Options.cxx b/src/Options.cxx
index 59fa849..d11c784 100644
--- a/src/Options.cxx
+++ b/src/Options.cxx
@@ -241,6 +241,10 @@ namespace SoDa {
 	}
       }
     }
+    // the last option may have been named without a value
+    if(arg_p != nullptr) {
+      arg_p->setPresent();
+    }
     }
     catch (BadOptValueException & exc) {
       std::cerr << exc.what() << "\n";
-- 
2.43.0


From ded28c4a7820021a6cd909c891da4a0c203bdda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:59 +0000
Subject: [PATCH 08/23] fix: an unfinished signed option does not leak into the
 next parse

---
 src/Options.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Options.cxx b/src/Options.cxx
index d11c784..80a6e25 100644
--- a/src/Options.cxx
+++ b/src/Options.cxx
@@ -175,6 +175,8 @@ namespace SoDa {
 
   bool Options::parse(std::list<std::string> tokens) {
     OptBase_p arg_p = nullptr;
+    // nothing carries over from an earlier parse
+    waiting_for_signed = false;
     try {
     while(!tokens.empty()) {
       std::string tkn = tokens.front();
-- 
2.43.0


From e0ce7aaaf538362621fbf7ee41331221ba722d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:59 +0000
Subject: [PATCH 09/23] fix: getPosArg checks both ends of the range

---
 src/Options.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Options.cxx b/src/Options.cxx
index 80a6e25..2a2bc32 100644
--- a/src/Options.cxx
+++ b/src/Options.cxx
@@ -78,7 +78,7 @@ namespace SoDa {
   }
 
   std::string Options::getPosArg(int idx) {
-    if(idx > pos_arg_vec.size()) return std::string("");
+    if((idx < 0) || (idx >= (int) pos_arg_vec.size())) return std::string("");
     else return pos_arg_vec[idx]; 
   }
 
-- 
2.43.0


From 3ec2591d75b5e178e93da91841c814f91d6eb164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:59 +0000
Subject: [PATCH 10/23] fix: parseKeyValue skips empty entries

---
 src/Options.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Options.cxx b/src/Options.cxx
index 2a2bc32..c9de8d1 100644
--- a/src/Options.cxx
+++ b/src/Options.cxx
@@ -323,6 +323,8 @@ namespace SoDa {
       
       // now we've got a key=value pair.  Split that at the =
       auto kvp = SoDa::split(kv, std::string("="));
+      // an empty entry names nothing
+      if(kvp.empty()) continue;
       auto key = kvp.front();
       auto value = kvp.back();
 
-- 
2.43.0


From 8b7455558d0645705e4325e5512e2b945a1967ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:52 +0000
Subject: [PATCH 11/23] fix: Barrier::wait reads the round counter under the
 lock

---
 src/Barrier.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Barrier.cxx b/src/Barrier.cxx
index ca3d689..6f647da 100644
--- a/src/Barrier.cxx
+++ b/src/Barrier.cxx
@@ -54,11 +54,11 @@ namespace SoDa {
       return wait(std::chrono::seconds(3600 * 24 * 1000));
     }
     
-    // bump the waiting count
-    auto old_barrier_count = barrier_count; 
     {
       std::unique_lock<std::mutex> lock(mtx);
       
+      // bump the waiting count
+      auto old_barrier_count = barrier_count; 
       waiting++; 
       if(waiting == num_waiters) {
 	// reset -- nobody will be waiting anymore
-- 
2.43.0


From f1f89190f301e0f1adfde6eec9df23d6208c446a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:52 +0000
Subject: [PATCH 12/23] fix: a timed-out barrier throws Corrupt from every
 other wait

---
 src/Barrier.cxx | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/Barrier.cxx b/src/Barrier.cxx
index 6f647da..bcf7ba7 100644
--- a/src/Barrier.cxx
+++ b/src/Barrier.cxx
@@ -57,6 +57,11 @@ namespace SoDa {
     {
       std::unique_lock<std::mutex> lock(mtx);
       
+      // once somebody has timed out, the barrier is useless
+      if(corrupted) {
+	throw Barrier::Corrupt(*this);
+      }
+
       // bump the waiting count
       auto old_barrier_count = barrier_count; 
       waiting++; 
@@ -74,11 +79,11 @@ namespace SoDa {
 	bool is_ok = cv.wait_for(lock, 
 				 timeout,
 				 [old_barrier_count, this]() {
-				   return old_barrier_count != barrier_count; 
+				   return (old_barrier_count != barrier_count) || corrupted; 
 				 });
 	
-	// if the barrier hasn't advanced, then we timed out.
-	if (!is_ok) {
+	// if the barrier hasn't advanced, then we timed out, or somebody else did.
+	if (!is_ok || (old_barrier_count == barrier_count)) {
 	  // that's really bad, as we've got a broken barrier.
 	  // If we return it will be truly broken, and everyone will
 	  // hang. Though it is likely that everyone is hung already.
@@ -89,8 +94,7 @@ namespace SoDa {
 	  else {
 	    // we're the first one to timout. 
 	    corrupted = true; 
-	    // set the barrier count to infinity, and wake everyone up
-	    barrier_count = 0xffffffff;
+	    // wake everyone up
 	    cv.notify_all();
 	    throw Barrier::Timeout(*this, timeout);
 	  }
-- 
2.43.0


From 5e0e15b0dbefc1c80b6245ac243a802771716438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:55 +0000
Subject: [PATCH 13/23] fix: a barrier limit too long for the clock no longer
 expires at once

---
 src/Barrier.cxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Barrier.cxx b/src/Barrier.cxx
index bcf7ba7..83b3f2c 100644
--- a/src/Barrier.cxx
+++ b/src/Barrier.cxx
@@ -30,6 +30,10 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 
 namespace SoDa {
+  // wait_for turns a limit into nanoseconds on the clock. Longer limits than
+  // this (about 100 years) might overflow, and expire at once.
+  static const std::chrono::milliseconds longest_limit = std::chrono::hours(24 * 36525);
+  
   Barrier::Barrier(const std::string & name, unsigned int num_waiters) : 
     name(name), num_waiters(num_waiters) {
     barrier_count = 0; 
@@ -41,6 +45,9 @@ namespace SoDa {
     if(timeout_ms == 0) {
       wait(std::chrono::seconds(3600 * 24 * 1000));
     }
+    else if(timeout_ms > (unsigned long) longest_limit.count()) {
+      wait(longest_limit);
+    }
     else {
       wait(std::chrono::milliseconds(timeout_ms));    
     }
@@ -77,7 +84,7 @@ namespace SoDa {
 	// the barrier_count and getting to the point where we're
 	// testing things. 
 	bool is_ok = cv.wait_for(lock, 
-				 timeout,
+				 (timeout < longest_limit) ? timeout : longest_limit,
 				 [old_barrier_count, this]() {
 				   return (old_barrier_count != barrier_count) || corrupted; 
 				 });
-- 
2.43.0


From 4aa4cc86eab0d34834a18460cf4ccfe7a33f51d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 14/23] fix: a property path descends into the child named by
 each key

---
 src/PropertyTree.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PropertyTree.cxx b/src/PropertyTree.cxx
index 9494a63..ece9461 100644
--- a/src/PropertyTree.cxx
+++ b/src/PropertyTree.cxx
@@ -72,9 +72,11 @@ namespace SoDa {
     if(pathlist.size() == 0) {
       return this; 
     }
-    else if(dictionary.find(pathlist.front()) != dictionary.end()) {
+
+    auto child = dictionary.find(pathlist.front());
+    if(child != dictionary.end()) {
 	pathlist.pop_front();
-	return getPropRecursive(pathlist, orig_pathname, throw_exception);
+	return child->second->getPropRecursive(pathlist, orig_pathname, throw_exception);
     }
     else {
       if(throw_exception) {
-- 
2.43.0


From cda9f29cc4bb4f17f84dd44040d320fea730e06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 15/23] fix: PropertyTree::get reports a missing property as
 false unless an exception is asked for

---
 include/PropertyTree.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/PropertyTree.hxx b/include/PropertyTree.hxx
index 36b7fb4..bf8ed01 100644
--- a/include/PropertyTree.hxx
+++ b/include/PropertyTree.hxx
@@ -133,7 +133,7 @@ namespace SoDa {
       PropNode * pn = root->getProp(pathname, throw_exception); 
       
       if(pn == nullptr) {
-	throw PropNode::PropertyNotFound(pathname); 
+	return false; 
       }
       
       return pn->get<T>(v, throw_exception);
-- 
2.43.0


From bab2dbc2888efa005aaec84b1280481feaafe19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 16/23] fix: property paths may contain keys with several
 blanks

---
 src/PropertyTree.cxx | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/PropertyTree.cxx b/src/PropertyTree.cxx
index ece9461..3ab0848 100644
--- a/src/PropertyTree.cxx
+++ b/src/PropertyTree.cxx
@@ -61,7 +61,17 @@ namespace SoDa {
   PropertyTree::PropNode::getProp(const std::string & pathname, 
 				  bool throw_exception) {
     // first split the first chunk of the pathname -- up to the :
-    std::list<std::string> pathlist = SoDa::split(pathname, ":"); 
+    // keys are taken literally: SoDa::split would squash blanks in them.
+    std::list<std::string> pathlist;
+    size_t start = 0;
+    while(start < pathname.size()) {
+      size_t end = pathname.find(':', start);
+      if(end == std::string::npos) {
+	end = pathname.size();
+      }
+      pathlist.push_back(pathname.substr(start, end - start));
+      start = end + 1; 
+    }
     return getPropRecursive(pathlist, pathname, throw_exception); 
   }
 
-- 
2.43.0


From b2919fe7ca2952fdbee03a9898747e543425cb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 17/23] fix: BadPropertyType names the path, text and type of
 the property

---
 src/PropertyTree.cxx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/PropertyTree.cxx b/src/PropertyTree.cxx
index 3ab0848..185d967 100644
--- a/src/PropertyTree.cxx
+++ b/src/PropertyTree.cxx
@@ -40,7 +40,14 @@ namespace SoDa {
   std::string PropertyTree::PropNode::getPathName() {
     std::string ret;
     if(parent != nullptr) {
-      ret = parent->getPathName() + ":" + val_string;
+      ret = parent->getPathName();
+      // our name is the key that our parent knows us by. (List elements have none.)
+      for(auto & entry : parent->dictionary) {
+	if(entry.second == this) {
+	  ret = ret.empty() ? entry.first : (ret + ":" + entry.first);
+	  break; 
+	}
+      }
     }
     
     return ret; 
@@ -165,7 +172,7 @@ namespace SoDa {
   PropertyTree::PropNode::BadPropertyType::BadPropertyType(const std::string & path_name, 
 							   const std::string & type_name, 
 							   const std::string & val_string) :
-    Exception(SoDa::Format("PropertyTree::PropNode::BadPropertyType at node name \"%0\" with value string \"%1\" which cannot be converted to type \"2\"")
+    Exception(SoDa::Format("PropertyTree::PropNode::BadPropertyType at node name \"%0\" with value string \"%1\" which cannot be converted to type \"%2\"")
 	      .addS(path_name)
 	      .addS(val_string)
 	      .addS(type_name)
-- 
2.43.0


From 127ca48d9249ee989e878e91ae48e87385b42377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 18/23] fix: loading a YAML sequence iterated over a destroyed
 node

---
 src/PropertyTreeYAML.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PropertyTreeYAML.cxx b/src/PropertyTreeYAML.cxx
index d73b2ac..2dfe97b 100644
--- a/src/PropertyTreeYAML.cxx
+++ b/src/PropertyTreeYAML.cxx
@@ -90,7 +90,9 @@ namespace SoDa {
 	// pass it along, as all prop tree nodes are lists or dictionaries
 	// or both
 	
-	for(auto n : it->second) {
+	// (hold the sequence: the value *it yields is a temporary)
+	YAML::Node seq = it->second;
+	for(auto n : seq) {
 	  fillRecurse(n, prop);
 	}
       }
-- 
2.43.0


From af533b95bd3f003c5204a91314eeab5f1be5ff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:39 +0000
Subject: [PATCH 19/23] fix: engineering notation keeps 1..999 and its digit
 count, and never overflows while normalizing

---
 src/Format.cxx | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index 7df91f9..92a0c34 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -285,15 +285,15 @@ namespace SoDa {
   int log1k(double v, double & v_norm, int sig_digs) {
     int ret = 0;
     v_norm = v; 
-    // round it first
-    double remul = 1.0; 
+    // normalize to the range 1 to 10 -- keep track of the decimal exponent
+    int dec_exp = 0;
     while(v_norm >= 10.0) {
       v_norm = v_norm / 10.0;
-      remul = remul * 10.0;
+      dec_exp++;
     }
     while(v_norm < 1.0) {
       v_norm = v_norm * 10.0;
-      remul = remul / 10.0;
+      dec_exp--;
     }
     // now create the round incr
     double ri = 5;    
@@ -303,30 +303,26 @@ namespace SoDa {
     // std::cerr << "ri = " << ri << " sig_digs " << sig_digs << "\n";
     // now do the round-up add
     v_norm += ri;
+    // the rounding may carry into a new leading digit
+    if(v_norm >= 10.0) {
+      v_norm = v_norm / 10.0;
+      dec_exp++;
+    }
     //std::cerr << "Now v_norm = " << v_norm << "\n";
 
-    // now restore v_norm to the original magnitude more or less
-    v_norm = v_norm * remul;
-
-    // ok, now take the log1k
-    if(v_norm < 1.0) {
-      while(v_norm < 1.0) {
-	ret -= 3; 
-	v_norm = v_norm * 1000.0; 
-      }
-    }
-    else {
-      while(v_norm > 1000.0) {
-	ret += 3; 
-	v_norm = v_norm / 1000.0; 
-      }
+    // ok, now find the multiple of three and scale to the range 1 to 1000.
+    // (Going back to the original magnitude could overflow.)
+    ret = dec_exp;
+    while((ret % 3) != 0) {
+      ret--;
+      v_norm = v_norm * 10.0; 
     }
     return ret; 
   }
 
   int getIntPartWidth(double v) {
     int ret = 0; 
-    while(v > 1.0) {
+    while(v >= 1.0) {
       v = v / 10.0; 
       ret++; 
     }
-- 
2.43.0


From 653fb4afc55e701254bcf68eebab14e127c1d354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 20/23] fix: engineering notation with more than ten fraction
 digits overflowed an int

---
 src/Format.cxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index 92a0c34..c48aba3 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -330,7 +330,7 @@ namespace SoDa {
   }
   
   void fractionate(double v, unsigned int significant_digits, 
-		   int & int_part, int & frac_part,
+		   int & int_part, long & frac_part,
 		   int & int_wid, int & frac_wid) {
     // v is in the range 1 to 1000 - epsilon. 
     // How many digits did it take up?
@@ -367,7 +367,7 @@ namespace SoDa {
       dfrac_part = dfrac_part * 10.0;
       //std::cerr << "New dfrac_part " << dfrac_part << " floor(dfp) " << floor(dfrac_part) 
       //		<< " frac_part " << frac_part << "\n";
-      frac_part = 10 * frac_part + floor(dfrac_part);
+      frac_part = 10 * frac_part + (long) floor(dfrac_part);
       double junk;
       dfrac_part = modf(dfrac_part, &junk);
       //std::cerr << "new frac_part " << frac_part 
@@ -452,7 +452,8 @@ namespace SoDa {
 	int exp_val = log1k(av, av_norm, significant_digits);
 	//std::cerr << "av_norm " << av_norm << " exp_val " << exp_val << "\n";
 	// now do the fraction and rounding
-	int frac_part, int_part, int_wid, frac_wid;
+	long frac_part;
+	int int_part, int_wid, frac_wid;
 	fractionate(av_norm, significant_digits,
 		    int_part, frac_part, 
 		    int_wid, frac_wid);
-- 
2.43.0


From 28283206a5da087b3793174f5a20f4960f12ff42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 21/23] fix: zero in engineering notation is padded to the
 width

---
 src/Format.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index c48aba3..17d29bf 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -495,7 +495,7 @@ namespace SoDa {
     if(radix_pos != std::string::npos) {
       fstr[radix_pos] = separator;
     }
-    insertField(fstr);
+    insertField(pad(fstr, width));
     return *this;     
   }
 
-- 
2.43.0


From 4a4c13231b6fd95d7b077698b30d0a2686c58a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:18 +0000
Subject: [PATCH 22/23] fix: the subscription mismatch message dropped the name
 of the other mailbox

---
 include/MailBox.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/MailBox.hxx b/include/MailBox.hxx
index 81ec389..3d86b5d 100644
--- a/include/MailBox.hxx
+++ b/include/MailBox.hxx
@@ -193,7 +193,7 @@ namespace SoDa {
   public:
     SubscriptionMismatch(const std::string & should_be
 			 , const std::string & was) : 
-      Exception(should_be, SoDa::Format("caller specified the wrong mailbox")
+      Exception(should_be, SoDa::Format("caller specified the wrong mailbox %0")
 		       .addS(was).str()) {
     }
   }; 
-- 
2.43.0


From c6d57ff937db9dc109177a9d521c5ab43bd1d095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:24 +0000
Subject: [PATCH 23/23] fix: a placeholder number too large for unsigned int
 wrapped around to another field's number

---
 include/Format.hxx |  2 +-
 src/Format.cxx     | 19 ++++++++++++-------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/Format.hxx b/include/Format.hxx
index e2bd254..390f4ea 100644
--- a/include/Format.hxx
+++ b/include/Format.hxx
@@ -526,7 +526,7 @@ namespace SoDa {
     public:
       enum SegType { LITERAL, FMT_VAL }; 
       FmtStringSeg(const std::string & str); 
-      FmtStringSeg(unsigned int idx);
+      FmtStringSeg(unsigned int idx, const std::string & digits);
 
       SegType seg_type; 
       std::string val;
diff --git a/src/Format.cxx b/src/Format.cxx
index 17d29bf..b816763 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -3,6 +3,7 @@
 #include <sstream>
 #include <iomanip>
 #include <cmath>
+#include <climits>
 #include <ctype.h>
 #include <regex>
 #include <algorithm>
@@ -44,8 +45,9 @@ namespace SoDa {
     val = str; 
   }
   
-  Format::FmtStringSeg::FmtStringSeg(unsigned int _idx) {
+  Format::FmtStringSeg::FmtStringSeg(unsigned int _idx, const std::string & digits) {
     seg_type = FMT_VAL;
+    val = digits;
     idx = _idx;
   }
 
@@ -90,6 +92,7 @@ namespace SoDa {
 	  // and indicate that we're scanning for the rest of the field number
 	  s_state = ACC_FLDNUM; 
 	  cur_fldnum = (unsigned int) (c - '0');
+	  cur_str.push_back(c);
 	}
 	else {
 	  // push a % and the current char onto the current string
@@ -102,11 +105,15 @@ namespace SoDa {
 	break; 
       case ACC_FLDNUM:
 	if(isdigit(c)) {
-	  cur_fldnum = cur_fldnum * 10 + ((unsigned int) (c - '0'));
+	  unsigned int digit = (unsigned int) (c - '0');
+	  // a number that is too large must not wrap around to the number of another field
+	  if(cur_fldnum >= UINT_MAX / 10) cur_fldnum = UINT_MAX;
+	  else cur_fldnum = cur_fldnum * 10 + digit;
+	  cur_str.push_back(c);
 	}
 	else {
 	  // we scanned an fld, now push the fmt specifier
-	  format_string_segments.push_back(FmtStringSeg(cur_fldnum));
+	  format_string_segments.push_back(FmtStringSeg(cur_fldnum, cur_str));
 	  // set the state if we aren't looking at a new %
 	  if(c == '%') {
 	    s_state = SAW_PC;
@@ -136,7 +143,7 @@ namespace SoDa {
       }
       break;
     case ACC_FLDNUM:
-      format_string_segments.push_back(FmtStringSeg(cur_fldnum));
+      format_string_segments.push_back(FmtStringSeg(cur_fldnum, cur_str));
       break; 
     }
   }
@@ -570,9 +577,7 @@ namespace SoDa {
 	ret_string = ret_string + fld.val;
       }
       else if(fld.seg_type == FmtStringSeg::FMT_VAL) {
-	std::stringstream ss;
-	ss << '%' << fld.idx;
-	ret_string = ret_string + ss.str();
+	ret_string = ret_string + "%" + fld.val;
 	unfilled_count++; 
       }
     }
-- 
2.43.0

