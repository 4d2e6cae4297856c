From 4b5bc10fbc66a76f9d9bd9d8cfd48e23fc71d5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 01/54] fix: expand each closure element of a decision once

Right recursive rules (the calculator grammar of the README among them) were
rejected with 'Upward sentinel reached', nullable loops recursed without end
and closures reached over several call sites took exponential time.
---
 src/core/CompositeATN.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/core/CompositeATN.cpp b/src/core/CompositeATN.cpp
index 0f0564a..e0ee519 100644
--- a/src/core/CompositeATN.cpp
+++ b/src/core/CompositeATN.cpp
@@ -16,12 +16,9 @@ void CompositeATN<TCHAR>::build_wildcard_closure(CATNClosure& closure, const Ide
 
             if (node.get_submachine() == id)
             {
-                if (stack.count(p.first, i) >= 2)
-                {
-                    //std::cout << "Upward sentinel reached." << std::endl;
-                    throw SimpleException("Upward sentinel reached.");
-                    //continue;
-                }
+                //The call site is already being expanded (e.g. right recursion)
+                if (stack.find(p.first, i))
+                    continue;
                 stack.push(p.first, i);
                 build_closure_exclusive(closure, ATNPath(p.first, i), color, stack, priority);
                 stack.pop();
@@ -67,9 +64,8 @@ void CompositeATN<TCHAR>::build_closure_exclusive(CATNClosure& closure, const AT
 
                 if (dest_node.is_terminal())
                 {
-                    closure.emplace(dest_path, color, new_priority);
-
-                    build_closure_exclusive(closure, dest_path, color, stack, new_priority);
+                    if (closure.emplace(dest_path, color, new_priority).second)
+                        build_closure_exclusive(closure, dest_path, color, stack, new_priority);
                 }
                 else
                 {
@@ -91,9 +87,8 @@ void CompositeATN<TCHAR>::build_closure_inclusive(CATNClosure& closure, const AT
 
     if (node.is_terminal())
     {
-        closure.emplace(path, color, priority);
-
-        build_closure_exclusive(closure, path, color, stack, priority);
+        if (closure.emplace(path, color, priority).second)
+            build_closure_exclusive(closure, path, color, stack, priority);
     }
     else
     {
-- 
2.43.0


From c4d506d60cd2b4e5c2440b7e64701e328b3964d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 02/54] fix: keep accepting and rejecting states apart in DFA
 minimization

'b+' or '[0-9]+' lost its only accepting state when it was merged with the
start state, which has the same transitions.
---
 src/core/DFA.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/DFA.hpp b/src/core/DFA.hpp
index 1124e3b..d19c5d7 100644
--- a/src/core/DFA.hpp
+++ b/src/core/DFA.hpp
@@ -18,12 +18,15 @@ public:
 	using NFABaseState<TCHAR, IndexVector>::get_transitions;
 	using NFABaseState<TCHAR, IndexVector>::m_transitions;
     using NFABaseState<TCHAR, IndexVector>::hash;
-    using NFABaseState<TCHAR, IndexVector>::operator==;
     using NFABaseState<TCHAR, IndexVector>::sort;
 	DFAState(const IndexVector& label, bool long_flag = false)
 		: NFABaseState<TCHAR, IndexVector>(label), m_long(long_flag), m_accept(false) {}
     DFAState(const DFAState<TCHAR>& state, std::vector<DFATransition<TCHAR> >&& transitions)
         : NFABaseState<TCHAR, IndexVector>(state, std::move(transitions)), m_long(state.m_long), m_accept(state.m_accept) {}
+	bool operator==(const DFAState<TCHAR>& s) const
+	{
+		return m_accept == s.m_accept && NFABaseState<TCHAR, IndexVector>::operator==(s);
+	}
 	bool is_accept_state() const
 	{
 		return m_accept;
-- 
2.43.0


From 1874faacdaf8761128a3f661b47e14d5d82c1334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 03/54] fix: visit each state once when taking an epsilon
 closure

Nested nullable loops such as '(a*)*' recursed until the stack overflowed.
---
 src/core/NFA.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/NFA.hpp b/src/core/NFA.hpp
index 3f801bb..fed7fb8 100644
--- a/src/core/NFA.hpp
+++ b/src/core/NFA.hpp
@@ -628,8 +628,9 @@ public:
     }
     bool epsilon_closure_sub(std::set<int>& closure, int index) const
     {
-        //Always include myself
-        closure.insert(index);
+        //Always include myself, and visit each state once (there can be epsilon loops)
+        if (!closure.insert(index).second)
+            return false;
 
         bool long_flag = false;
         IndexVector et = m_states[index].epsilon_transitions(long_flag);
-- 
2.43.0


From 887cab2b810137f7d7dd550bd34230ae250a003c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 04/54] fix: run the NFA on state sets, within the input

The recursive search never returned on epsilon loops and read past the end of
the string when a class includes the NUL character.
---
 src/core/NFA.hpp | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/core/NFA.hpp b/src/core/NFA.hpp
index fed7fb8..09efc97 100644
--- a/src/core/NFA.hpp
+++ b/src/core/NFA.hpp
@@ -668,27 +668,25 @@ public:
      */
     bool run(const std::basic_string<TCHAR>& seq, int index = 0, int input_pos = 0) const
     {
-        if (index == m_states.size() - 1 && seq.size() == input_pos)
-        {
-            return true;
-        }
-        else
+        bool long_flag = false;
+        std::set<int> active = epsilon_closure(index, long_flag);
+
+        for (; input_pos < seq.size(); input_pos++)
         {
-            for (const auto& tr : get_transitions(index))
+            std::set<int> next;
+
+            for (int i : active)
             {
-                if (tr.is_epsilon())
+                for (const auto& tr : get_transitions(i))
                 {
-                    if (run(seq, tr.dest(), input_pos))
-                        return true;
-                }
-                else if (tr.label().includes(seq[input_pos]))
-                {
-                    if (run(seq, tr.dest(), input_pos + 1))
-                        return true;
+                    if (!tr.is_epsilon() && tr.label().includes(seq[input_pos]))
+                        next.insert(tr.dest());
                 }
             }
-            return false;
+            active = epsilon_closure(next, long_flag);
         }
+
+        return active.count(m_states.size() - 1) > 0;
     }
     /*!
     * @brief Add a transition to a new state from the final state.
-- 
2.43.0


From b11ee9f3526aa761dfedc23da975d3e0eaff677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 05/54] fix: complement of a character class that includes NUL

It contained a range whose end precedes its start.
---
 src/core/CharClass.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/CharClass.hpp b/src/core/CharClass.hpp
index b7bccd8..2fb315f 100644
--- a/src/core/CharClass.hpp
+++ b/src/core/CharClass.hpp
@@ -171,9 +171,9 @@ public:
 
 		if (i != m_ranges.cend())
 		{
-			if (i->start() == 1)
+			if (i->start() <= 1)
 			{
-				last_end = i->end();
+				last_end = std::max(last_end, i->end());
 				i++;
 			}
 		}
-- 
2.43.0


From 754b51c0792877f7f1ee91223f62900f834da541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 06/54] fix: unions of character classes keep every range, in
 order

The union of two classes dropped the part of a merged range that was pending
when one operand ran out ([a-c]|[b-e] lost 'a'), and adding a range below the
existing ones left the class unsorted for the operations that need it sorted.
---
 src/core/CharClass.cpp | 43 +++---------------------------------------
 src/core/CharClass.hpp |  4 ++--
 2 files changed, 5 insertions(+), 42 deletions(-)

diff --git a/src/core/CharClass.cpp b/src/core/CharClass.cpp
index d42fa14..5d1ed37 100644
--- a/src/core/CharClass.cpp
+++ b/src/core/CharClass.cpp
@@ -123,50 +123,13 @@ void CharClass<TCHAR>::parse(Stream& stream)
 template<typename TCHAR>
 CharClass<TCHAR> CharClass<TCHAR>::operator|(const CharClass<TCHAR>& cc) const
 {
-    CharClass<TCHAR> new_class;
-
-    auto i = m_ranges.cbegin();
-    auto j = cc.m_ranges.cbegin();
-
-    Range<TCHAR> ri, rj;
-
-    if (i != m_ranges.cend()) ri = *i;
-    if (j != cc.m_ranges.cend()) rj = *j;
+    CharClass<TCHAR> new_class(*this);
 
-    while (i != m_ranges.cend() && j != cc.m_ranges.cend())
+    for (const auto& r : cc.m_ranges)
     {
-        if (ri < rj)
-        {
-            new_class.m_ranges.push_back(ri);
-            if (++i != m_ranges.cend())
-                ri = *i;
-        }
-        else if (ri > rj)
-        {
-            new_class.m_ranges.push_back(rj);
-            if (++j != cc.m_ranges.cend())
-                rj = *j;
-        }
-        else
-        {
-            if (ri.end() < rj.end())
-            {
-                rj = rj.merge(ri);
-                if (++i != m_ranges.cend())
-                    ri = *i;
-            }
-            else
-            {
-                ri = ri.merge(rj);
-                if (++j != cc.m_ranges.cend())
-                    rj = *j;
-            }
-        }
+        new_class |= r;
     }
 
-    new_class.m_ranges.insert(new_class.m_ranges.end(), i, m_ranges.cend());
-    new_class.m_ranges.insert(new_class.m_ranges.end(), j, cc.m_ranges.cend());
-
     return new_class;
 }
 
diff --git a/src/core/CharClass.hpp b/src/core/CharClass.hpp
index 2fb315f..0581e10 100644
--- a/src/core/CharClass.hpp
+++ b/src/core/CharClass.hpp
@@ -126,7 +126,7 @@ public:
     {
         for (wchar_t ch : ch_list)
         {
-            m_ranges.push_back(Range<TCHAR>(ch, ch + 1));
+            *this |= Range<TCHAR>(ch, ch + 1);
         }
     }
     CharClass(wchar_t start, wchar_t end)
@@ -195,7 +195,7 @@ public:
 
         auto i = m_ranges.cbegin();
 
-        for (; i != m_ranges.cend() && !i->overlaps(r); i++)
+        for (; i != m_ranges.cend() && i->end() < r.start(); i++)
             ;
         
         cc.m_ranges.insert(cc.m_ranges.end(), m_ranges.cbegin(), i);
-- 
2.43.0


From 36e015eb4d3ac8ab3ee435ab91a7bf4224c920f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 07/54] fix: read CRLF as a newline

get() returned '\r' for it, so a '//' comment in a grammar with CRLF line ends
swallowed everything up to the end of the file.
---
 src/core/Stream.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/Stream.hpp b/src/core/Stream.hpp
index 36450ad..9d3f913 100644
--- a/src/core/Stream.hpp
+++ b/src/core/Stream.hpp
@@ -97,6 +97,7 @@ public:
                     m_newline_flag = true;
                     m_pos++;
                     m_cur++;
+                    return L'\n';
                 }
             }
             else if (ch == L'\n' || ch == L'\u0085' || ch == L'\u2028' || ch == L'\u2029')
-- 
2.43.0


From 993ff986c2318ba5a3860033279c3fdca8a2ae73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 08/54] fix: report an unterminated include path

The path grew without end when the closing quote was missing.
---
 src/core/Grammar.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index 844c782..fd431dc 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -97,6 +97,9 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
 
             for (ch = stream.get(); ch != L'"'; ch = stream.get())
             {
+                if (ch == L'\0')
+                    throw stream.unexpected(ch);
+
                 wide_path.push_back(ch);
             }
 
-- 
2.43.0


From ffbf6c896755a82a2510c6976da2ed03acaf77ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 09/54] fix: initialize the local id of parsed grammar nodes

get_id() returned an indeterminate value for every node without '{n}'.
---
 src/core/ATN.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/ATN.hpp b/src/core/ATN.hpp
index b614473..96ed98b 100644
--- a/src/core/ATN.hpp
+++ b/src/core/ATN.hpp
@@ -101,6 +101,7 @@ public:
     {
     }
     ATNNode(Stream& stream)
+        : m_localid(-1)
     {
         parse(stream);
     }
-- 
2.43.0


From cd6169906599b34a4028c7e40b393822708e4f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 10/54] fix: keep rule ids and names in step when a rule is
 defined twice

The ignored second definition took an id and a slot in the list of names, so
enum_machines() and lookup_id() named a rule by an id it does not have.
---
 src/core/Grammar.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index fd431dc..cfe9acf 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -114,14 +114,17 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
         }
         else
         {
-            ATNMachine<TCHAR> atn(machine_id++, stream);
+            ATNMachine<TCHAR> atn(machine_id, stream);
 
             if (m_root_id.str().empty())
                 m_root_id = id;
 
-            m_networks.insert(std::pair<Identifier, ATNMachine<TCHAR> >(id, std::move(atn)));
-
-            m_identifiers.push_back(id);
+            //The first definition of a rule stands
+            if (m_networks.insert(std::pair<Identifier, ATNMachine<TCHAR> >(id, std::move(atn))).second)
+            {
+                m_identifiers.push_back(id);
+                machine_id++;
+            }
         }
 
         //m_networks.emplace(Identifier(stream), ATN<TCHAR>(stream));
-- 
2.43.0


From 3967d7435f4fc8bea8981c8af07bcac2cc72b5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 11/54] fix: move the rule names along with the grammar

A moved grammar enumerated no rules.
---
 src/core/Grammar.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Grammar.hpp b/src/core/Grammar.hpp
index a339855..3ff0074 100644
--- a/src/core/Grammar.hpp
+++ b/src/core/Grammar.hpp
@@ -71,7 +71,8 @@ public:
         optimize();
     }
     Grammar(Grammar&& old)
-        : m_networks(std::move(old.m_networks)), m_root_id(old.m_root_id)
+        : m_networks(std::move(old.m_networks)), m_identifiers(std::move(old.m_identifiers)), m_root_id(old.m_root_id),
+          m_grammar_name(old.m_grammar_name), m_options(std::move(old.m_options))
     {
     }
     virtual ~Grammar()
-- 
2.43.0


From 4ac368def34e819153509679d71426b5993a9fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 12/54] fix: print an empty index vector without reading past
 it

---
 src/core/Util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Util.cpp b/src/core/Util.cpp
index a0c795a..ae56c2d 100644
--- a/src/core/Util.cpp
+++ b/src/core/Util.cpp
@@ -20,7 +20,7 @@ std::wostream& operator<<(std::wostream& os, const ATNPath& path)
 std::wostream& operator<<(std::wostream& os, const IndexVector& v)
 {
     os << L'[';
-    for (unsigned int i = 0; i < v.size() - 1; i++)
+    for (unsigned int i = 0; i + 1 < v.size(); i++)
     {
         os << v[i] << L',';
     }
-- 
2.43.0


From f854ad1c11927e77e3f0e8ebc03194995fb200da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 13/54] fix: refuse grammars whose rule ids do not fit a syntax
 tree marker

Ids above 32767 spill into the bit that tells start markers from end markers.
---
 src/core/Grammar.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index cfe9acf..784e74e 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -56,8 +56,9 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
         if (ch == L'\0')
             break;
 
-        if (machine_id >= 65536)
-            throw stream.toomany(65535);
+        //A marker of the syntax tree has 15 bits for the id
+        if (machine_id >= 32768)
+            throw stream.toomany(32767);
 
         Identifier id(stream);
 
-- 
2.43.0


From c71e5682199e12b3cbccc441f437bd26b2815cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 14/54] fix: read grammars that contain non-ASCII bytes

Everything from the first such byte on was dropped without an error.
---
 src/core/Grammar.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index 784e74e..67aa994 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -43,9 +43,14 @@ void Grammar<TCHAR>::print_ldfa(std::wostream& os, const ATNPath& path) const
 template<typename TCHAR>
 int Grammar<TCHAR>::parse(const char *filename, int machine_id)
 {
-    std::wifstream grammar_file(filename, std::ios::in);
+    std::string grammar_bytes = readmbsfromfile(filename);
 
-    std::wstring grammar_str(std::istreambuf_iterator<wchar_t>(grammar_file), {});
+    //The generated parsers match bytes, so each byte of the grammar is a character
+    std::wstring grammar_str;
+    for (unsigned char ch : grammar_bytes)
+    {
+        grammar_str.push_back(ch);
+    }
 
     Stream stream(std::move(grammar_str));
 
-- 
2.43.0


From ad5161212663d67f3c93f658758e397981ed77b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 15/54] fix: keep the priorities of selections when optimizing
 a grammar

drop_passthrough_nodes() dropped the nodes that '|>' alternatives start with,
and their priorities with them.
---
 src/core/ATN.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/core/ATN.hpp b/src/core/ATN.hpp
index 96ed98b..25fabf7 100644
--- a/src/core/ATN.hpp
+++ b/src/core/ATN.hpp
@@ -377,6 +377,22 @@ public:
                 {
                     assert(where >= 0);
                     ATNNode<TCHAR>& origin = m_nodes.at(where);
+
+                    //The node carries the priorities of a selection
+                    bool prioritized = false;
+                    for (const auto& t : origin.get_transitions())
+                    {
+                        if (t.dest() == i && t.tag() != 0)
+                            prioritized = true;
+                    }
+                    for (const auto& t : node.get_transitions())
+                    {
+                        if (t.tag() != 0)
+                            prioritized = true;
+                    }
+                    if (prioritized)
+                        continue;
+
                     for (const auto& t : node.get_transitions())
                     {
                         origin.add_transition(t);
-- 
2.43.0


From 15a7e34d764141a2d27fc2635a8ec42a3576aa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 16/54] fix: do not look at the last tag of an empty reduction
 stack

Reducing the first symbol of a bank read (and could write) the word in front
of the stack's storage.
---
 src/core/Stage2RunnerNonRecursive.hpp | 2 +-
 src/core/Stage3RunnerNonRecursive.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Stage2RunnerNonRecursive.hpp b/src/core/Stage2RunnerNonRecursive.hpp
index c40bcf5..8760d3e 100644
--- a/src/core/Stage2RunnerNonRecursive.hpp
+++ b/src/core/Stage2RunnerNonRecursive.hpp
@@ -55,7 +55,7 @@ protected:
   static void push_value(const semantic_value_type val, std::vector<semantic_value_type>& values, std::vector<detail::StackEntryTag>& tags)
   {
     if (val == 0) return;
-    if (detail::isValueTag(tags.back())) {
+    if (!tags.empty() && detail::isValueTag(tags.back())) {
       tags.back() = static_cast<detail::StackEntryTag>(static_cast<int>(tags.back()) + 1);
     } else {
       tags.emplace_back(detail::StackEntryTag::VALUE);
diff --git a/src/core/Stage3RunnerNonRecursive.hpp b/src/core/Stage3RunnerNonRecursive.hpp
index dbfb854..956fe0f 100644
--- a/src/core/Stage3RunnerNonRecursive.hpp
+++ b/src/core/Stage3RunnerNonRecursive.hpp
@@ -118,7 +118,7 @@ private:
   template <typename Iterator>
   static void append_value(Iterator& values_next_it, int n, std::vector<semantic_value_type>& values, std::vector<detail::StackEntryTag>& tags)
   {
-    if (detail::isValueTag(tags.back())) {
+    if (!tags.empty() && detail::isValueTag(tags.back())) {
       tags.back() = static_cast<detail::StackEntryTag>(static_cast<int>(tags.back()) + n);
     } else {
       tags.emplace_back(static_cast<detail::StackEntryTag>(n));
-- 
2.43.0


From 5c3700d91fa9f0fb2e0d2fac31473116b0f53234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 17/54] fix: do not index past the value stack when a symbol
 has no values

---
 src/core/Stage2RunnerNonRecursive.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Stage2RunnerNonRecursive.hpp b/src/core/Stage2RunnerNonRecursive.hpp
index 8760d3e..abd68c1 100644
--- a/src/core/Stage2RunnerNonRecursive.hpp
+++ b/src/core/Stage2RunnerNonRecursive.hpp
@@ -80,7 +80,7 @@ protected:
 #if PYCENTAURUS
     auto new_val = m_listener(&sym, values.data(), value_count, m_listener_context);
 #else
-    auto new_val = m_listener(&sym, &values[values.size() - value_count], value_count, m_listener_context);
+    auto new_val = m_listener(&sym, values.data() + (values.size() - value_count), value_count, m_listener_context);
     values.resize(values.size() - value_count);
 #endif
     if (reduction_counter != nullptr) {
-- 
2.43.0


From c89b5caae5fcbc7ee4f652baaf64facc5a1ccef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 18/54] fix: close the shared memory descriptor in stage 2 and
 3 runners

Every parse leaked one descriptor per worker and one for stage 3.
---
 src/core/BaseRunner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/BaseRunner.hpp b/src/core/BaseRunner.hpp
index 27b5f31..dc4adcf 100644
--- a/src/core/BaseRunner.hpp
+++ b/src/core/BaseRunner.hpp
@@ -250,7 +250,7 @@ protected:
     ftruncate(fd, get_window_size());
     m_sub_window  = mmap(NULL, get_sub_window_size(), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
     m_main_window = mmap(NULL, get_main_window_size(), PROT_READ | PROT_WRITE, MAP_SHARED, fd, get_sub_window_size());
-    if (is_allocating) close(fd);
+    close(fd);
 #endif
   }
   void release_memory(bool is_finalizing)
-- 
2.43.0


From 1f9866cafcdda29e45af91c7aabe19f4a0258c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 19/54] fix: free the captured result chunks with the stage 1
 runner

---
 src/core/Stage1Runner.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Stage1Runner.hpp b/src/core/Stage1Runner.hpp
index d092600..0be6ecd 100644
--- a/src/core/Stage1Runner.hpp
+++ b/src/core/Stage1Runner.hpp
@@ -96,6 +96,9 @@ public:
     create_semaphore();
   }
   virtual ~Stage1Runner() {
+    for (const auto& chunk : result_chunks_) {
+      delete[] reinterpret_cast<const char*>(chunk.begin());
+    }
     close_semaphore(true);
     release_memory(true);
   }
-- 
2.43.0


From 6f25cd127bf0b8d6e6effb6c64ed8e2b59970f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 20/54] fix: do not take over shared memory or a semaphore left
 by a killed process

With the same process id, a stale semaphore made sem_open fail and the first
sem_post crash, and stale bank states confused stage 3.
---
 src/core/BaseRunner.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/BaseRunner.hpp b/src/core/BaseRunner.hpp
index dc4adcf..83243c5 100644
--- a/src/core/BaseRunner.hpp
+++ b/src/core/BaseRunner.hpp
@@ -246,6 +246,8 @@ protected:
     m_sub_window  = MapViewOfFile(m_mem_handle, FILE_MAP_ALL_ACCESS, 0, 0, get_sub_window_size());
     m_main_window = MapViewOfFile(m_mem_handle, FILE_MAP_ALL_ACCESS, 0, get_sub_window_size(), get_main_window_size());
 #elif defined(CENTAURUS_BUILD_LINUX)
+    //What a killed process with the same id left behind must not be taken over
+    if (is_allocating) shm_unlink(m_memory_name);
     int fd = shm_open(m_memory_name, (is_allocating) ? O_RDWR | O_CREAT : O_RDWR, 0600);
     ftruncate(fd, get_window_size());
     m_sub_window  = mmap(NULL, get_sub_window_size(), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
@@ -272,6 +274,7 @@ protected:
 #if defined(CENTAURUS_BUILD_WINDOWS)
     m_slave_lock = CreateSemaphoreA(NULL, 0, m_bank_num, m_slave_lock_name);
 #elif defined(CENTAURUS_BUILD_LINUX)
+    sem_unlink(m_slave_lock_name);
     m_slave_lock = sem_open(m_slave_lock_name, O_CREAT | O_EXCL, 0600, 0);
 #endif
   }
-- 
2.43.0


From d5bd4b9feb238d15a5cf62bf2295db6a4a908398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 21/54] fix: map zeros behind the input

The parsers run until a NUL: an input of a multiple of the page size was read
past its mapping, and an empty one (which cannot be mapped) crashed the parser.
---
 src/core/BaseRunner.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/core/BaseRunner.hpp b/src/core/BaseRunner.hpp
index 83243c5..d46658d 100644
--- a/src/core/BaseRunner.hpp
+++ b/src/core/BaseRunner.hpp
@@ -144,12 +144,18 @@ public:
         int fd = open(filename, O_RDONLY);
 
         struct stat sb;
-        fstat(fd, &sb);
-        m_input_size = sb.st_size;
+        m_input_size = (fd >= 0 && fstat(fd, &sb) == 0) ? sb.st_size : 0;
 
-        m_input_window = mmap(NULL, sb.st_size, PROT_READ, MAP_SHARED, fd, 0);
+        //The parsers read up to a vector beyond the NUL that ends the input,
+        //so at least a page of zeros follows it, whatever its size
+        void *window = mmap(NULL, get_input_window_size(), PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
 
-        close(fd);
+        if (window != MAP_FAILED && m_input_size > 0)
+            mmap(window, m_input_size, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0);
+
+        m_input_window = window;
+
+        if (fd >= 0) close(fd);
 
         snprintf(m_memory_name, sizeof(m_memory_name), "/%s%s[%d]Window", PROGRAM_UUID, PROGRAM_NAME, pid);
 
@@ -161,7 +167,7 @@ public:
 #if defined(CENTAURUS_BUILD_WINDOWS)
         UnmapViewOfFile(m_input_window);
 #elif defined(CENTAURUS_BUILD_LINUX)
-        munmap(const_cast<void *>(m_input_window), m_input_size);
+        munmap(const_cast<void *>(m_input_window), get_input_window_size());
 #endif
 	}
 public:
@@ -177,6 +183,10 @@ public:
 	{
 		return get_main_window_size() + get_sub_window_size();
 	}
+    size_t get_input_window_size() const
+    {
+        return ALIGN_NEXT(m_input_size, (size_t)4096) + 4096;
+    }
     size_t get_input_size() const
     {
         return m_input_size;
-- 
2.43.0


From 6dcff62ee28b1fb6cc48be60436180e11e68e970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 22/54] fix: give optional units of a regular expression an end
 state of their own

---
 src/core/NFA.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/NFA.hpp b/src/core/NFA.hpp
index 09efc97..4205352 100644
--- a/src/core/NFA.hpp
+++ b/src/core/NFA.hpp
@@ -567,15 +567,21 @@ public:
             {
             case L'?':
                 stream.discard();
+                //Add a confluence, as the last state can have loops of its own
+                add_state(CharClass<TCHAR>());
                 //Add a skipping transition
                 add_transition_from(CharClass<TCHAR>(), 1);
                 break;
             case L'*':
                 stream.discard();
+                //Add a confluence, as the last state can have loops of its own
+                add_state(CharClass<TCHAR>());
                 //Add a skipping transition
                 add_transition_from(CharClass<TCHAR>(), 1);
                 break;
             default:
+                //Add a confluence, as the last state can have loops of its own
+                add_state(CharClass<TCHAR>());
                 //Add a skipping transition
                 add_transition_from(CharClass<TCHAR>(), 1);
                 break;
-- 
2.43.0


From e33fb6f6e27333867a0c88ad2fb4bb1eb138c247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:12 +0000
Subject: [PATCH 23/54] fix: keep the loops of a regular expression out of the
 decision behind it

---
 src/core/CompositeATN.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/CompositeATN.hpp b/src/core/CompositeATN.hpp
index dbf6194..eb21ecc 100644
--- a/src/core/CompositeATN.hpp
+++ b/src/core/CompositeATN.hpp
@@ -129,7 +129,8 @@ private:
             m_nodes.emplace_back();
             m_nodes.back().import_transitions(nfa.get_state(i), offset);
         }
-        return m_nodes.size() - 1;
+        //Leave through a node of its own, as the last state can have loops
+        return add_node(CharClass<TCHAR>(), m_nodes.size() - 1, 0);
     }
     int import_nonterminal(const Identifier& id, int origin, int tag)
     {
-- 
2.43.0


From 1cec0aac43400c8a2ff2390afedceac698b1703d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:12 +0000
Subject: [PATCH 24/54] fix: give an empty literal a node of its own

---
 src/core/CompositeATN.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/CompositeATN.hpp b/src/core/CompositeATN.hpp
index eb21ecc..0468d49 100644
--- a/src/core/CompositeATN.hpp
+++ b/src/core/CompositeATN.hpp
@@ -112,6 +112,9 @@ private:
     }
     int import_literal_terminal(const std::basic_string<TCHAR>& literal, int origin, int tag)
     {
+        if (literal.empty())
+            return add_node(CharClass<TCHAR>(), origin, tag);
+
         for (TCHAR ch : literal)
         {
             origin = add_node(CharClass<TCHAR>(ch, ch + 1), origin, tag);
-- 
2.43.0


From 78c3f84c84d950e089c75268855cacd4dd255b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:12 +0000
Subject: [PATCH 25/54] fix: refuse local ids that do not fit an int

---
 src/core/ATN.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/ATN.cpp b/src/core/ATN.cpp
index c578dba..b4f92e9 100644
--- a/src/core/ATN.cpp
+++ b/src/core/ATN.cpp
@@ -58,6 +58,9 @@ void ATNNode<TCHAR>::parse(Stream& stream)
         int id = 0;
         for (; L'0' <= ch && ch <= L'9'; ch = stream.peek())
         {
+            if (id >= 100000000)
+                throw stream.unexpected(ch);
+
             id = id * 10 + static_cast<int>(ch - L'0');
             stream.discard();
         }
-- 
2.43.0


From 8e50b31e3c54dc96bdba802bc001c0a1c4aa271b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 26/54] fix: report grammars that include themselves

---
 src/core/Grammar.cpp | 6 ++++++
 src/core/Grammar.hpp | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index 67aa994..9073bc6 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -116,7 +116,13 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
 
             Encoder enc{};
 
+            //Files that include each other would never end
+            if (m_include_depth >= 64)
+                throw SimpleException("Includes are nested too deeply.");
+
+            m_include_depth++;
             machine_id = parse(make_include_path(filename, enc.wcstombs(wide_path)), machine_id);
+            m_include_depth--;
         }
         else
         {
diff --git a/src/core/Grammar.hpp b/src/core/Grammar.hpp
index 3ff0074..9404cf3 100644
--- a/src/core/Grammar.hpp
+++ b/src/core/Grammar.hpp
@@ -53,6 +53,7 @@ template<typename TCHAR> class Grammar : public IGrammar
     Identifier m_root_id;
 	Identifier m_grammar_name;
     GrammarOptions m_options;
+    int m_include_depth = 0;
 public:
     int parse(const char *filename, int machine_id = 1);
     int parse(const std::string& filename, int machine_id = 1);
-- 
2.43.0


From c7d89d0dec883e8c9220da743c42cb65865b3704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 27/54] fix: report a grammar file that cannot be opened

---
 src/core/Util.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/Util.cpp b/src/core/Util.cpp
index ae56c2d..c156f29 100644
--- a/src/core/Util.cpp
+++ b/src/core/Util.cpp
@@ -3,6 +3,8 @@
 #include <fstream>
 #include <wctype.h>
 
+#include "Exception.hpp"
+
 namespace Centaurus
 {
 std::wostream& operator<<(std::wostream& os, const ATNPath& path)
@@ -48,6 +50,9 @@ std::string readmbsfromfile(const char *filename)
 {
 	std::ifstream ifs(filename);
 
+	if (!ifs)
+		throw SimpleException(std::string("Cannot open ") + filename);
+
 	return std::string(std::istreambuf_iterator<char>(ifs), {});
 }
 std::wstring readwcsfromfile(const char *filename)
-- 
2.43.0


From 50f9a4d61bc04d642bf62c97a52b6feff777e3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:04 +0000
Subject: [PATCH 28/54] fix: heed --optimize for the DFA of a pattern

---
 src/tool/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/main.cpp b/src/tool/main.cpp
index 0d76de0..4d7ac69 100644
--- a/src/tool/main.cpp
+++ b/src/tool/main.cpp
@@ -230,7 +230,7 @@ int main(int argc, char *argv[])
                     case GenerateDFA:
                     {
                         NFA<char> nfa(stream);
-                        DFA<char> dfa(nfa);
+                        DFA<char> dfa(nfa, optimize_flag);
 
                         dfa.print(output_stream, L"DFA");
                     }
-- 
2.43.0


From 2f336933e9b214b280c81ac262e4f13ee83466fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 29/54] fix: fork each state of an automaton once

---
 src/core/DFA.hpp          | 13 +++++--------
 src/core/LookaheadDFA.hpp | 14 +++++---------
 2 files changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/core/DFA.hpp b/src/core/DFA.hpp
index d19c5d7..53108da 100644
--- a/src/core/DFA.hpp
+++ b/src/core/DFA.hpp
@@ -91,7 +91,6 @@ template<typename TCHAR> class DFA : public NFABase<DFAState<TCHAR> >
 
 		NFADepartureSet<TCHAR> deptset = ds_factory.build_departure_set();
 
-		int initial_index = m_states.size();
 		for (const auto& item : deptset)
 		{
             bool long_flag = false;
@@ -103,11 +102,6 @@ template<typename TCHAR> class DFA : public NFABase<DFAState<TCHAR> >
 
 			m_states[index].add_transition(item.first, new_index);
 		}
-
-		for (int i = initial_index; i < m_states.size(); i++)
-		{
-			fork_states(i, nfa);
-		}
 	}
 public:
 	DFA(const NFA<TCHAR>& nfa, bool optimize_flag = true)
@@ -119,8 +113,11 @@ public:
 		//Create the start state
 		m_states.emplace_back(IndexVector(ec0.cbegin(), ec0.cend()), long_flag);
 
-		//Recursively construct the DFA
-		fork_states(0, nfa);
+		//Fork every state once, while new ones are being added
+		for (int i = 0; i < m_states.size(); i++)
+		{
+			fork_states(i, nfa);
+		}
 
 		int accept_state_index = nfa.get_state_num() - 1;
 
diff --git a/src/core/LookaheadDFA.hpp b/src/core/LookaheadDFA.hpp
index 787ea31..5db2ab3 100644
--- a/src/core/LookaheadDFA.hpp
+++ b/src/core/LookaheadDFA.hpp
@@ -161,8 +161,6 @@ private:
 		//std::cout << deptset << std::endl;
 
 		//Add new states to the LDFA
-		int initial_index = m_states.size();
-
 		for (const auto& item : deptset)
 		{
 			int color = get_closure_color(item.second);
@@ -180,19 +178,17 @@ private:
 				m_states[index].add_transition(item.first, new_index);
 			}
 		}
-
-		//Recursively construct the closures for all the newly added DFA states
-		for (unsigned int i = initial_index; i < m_states.size(); i++)
-		{
-			fork_closures(catn, i);
-		}
 	}
 public:
 	LookaheadDFA(const CompositeATN<TCHAR>& catn, const ATNPath& origin, bool optimize_flag = true)
 	{
 		m_states.emplace_back(catn.build_root_closure(origin));
 
-		fork_closures(catn, 0);
+		//Construct the closures once for every DFA state, while new ones are being added
+		for (unsigned int i = 0; i < m_states.size(); i++)
+		{
+			fork_closures(catn, i);
+		}
 
         for (auto& state : m_states)
             state.sort();
-- 
2.43.0


From 7f49595225d7d3a3275aab50dfb9bf7b2a297b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:17 +0000
Subject: [PATCH 30/54] fix: hand on the stacks of a page within its bank in
 the Python protocol

---
 src/core/BaseRunner.hpp               |  4 +++
 src/core/Stage2RunnerNonRecursive.hpp | 32 ++++++++++-------
 src/core/Stage3RunnerNonRecursive.hpp | 50 ++++++++++++++-------------
 3 files changed, 49 insertions(+), 37 deletions(-)

diff --git a/src/core/BaseRunner.hpp b/src/core/BaseRunner.hpp
index d46658d..803ee37 100644
--- a/src/core/BaseRunner.hpp
+++ b/src/core/BaseRunner.hpp
@@ -18,6 +18,10 @@ class CSTMarker
 	uint64_t m_value;
 public:
 	CSTMarker(uint64_t value) : m_value(value) {}
+	uint64_t get_value() const
+	{
+		return m_value;
+	}
 	int get_machine_id() const
 	{
 		return (m_value >> 48) & 0x7FFF;
diff --git a/src/core/Stage2RunnerNonRecursive.hpp b/src/core/Stage2RunnerNonRecursive.hpp
index abd68c1..082dfde 100644
--- a/src/core/Stage2RunnerNonRecursive.hpp
+++ b/src/core/Stage2RunnerNonRecursive.hpp
@@ -158,19 +158,25 @@ private:
       }
     }
 #if PYCENTAURUS
-    auto it = src;
-    *it++ = starts.size();
-    std::memcpy(it, starts.data(), starts.size()*sizeof(CSTMarker));
-    it += starts.size();
-    *it++ = ends.size();
-    std::memcpy(it, ends.data(), ends.size()*sizeof(CSTMarker));
-    it += ends.size();
-    *it++ = values.size();
-    std::memcpy(it, values.data(), values.size()*sizeof(semantic_value_type));
-    it += values.size();
-    *it++ = tags.size();
-    std::memcpy(it, tags.data(), tags.size()*sizeof(detail::StackEntryTag));
-    assert(reinterpret_cast<uint64_t*>(reinterpret_cast<detail::StackEntryTag*>(it) + tags.size()) < src + m_bank_size / 8);
+    //What is left always fits in the bank: an entry for each unmatched marker and one
+    //for each run of values, which stands for at least one pair of matched markers
+    auto starts_it = starts.begin();
+    auto ends_it   = ends.begin();
+    auto dst       = src;
+    for (auto tag : tags) {
+      switch (tag) {
+      case detail::StackEntryTag::START_MARKER:
+        *dst++ = (starts_it++)->get_value();
+        break;
+      case detail::StackEntryTag::END_MARKER:
+        *dst++ = (ends_it++)->get_value();
+        break;
+      default:
+        *dst++ = static_cast<uint64_t>(tag);
+        break;
+      }
+    }
+    if (dst < src + m_bank_size / 8) *dst = 0;
 #else
     *src = reinterpret_cast<uint64_t>(ptr);
 #endif
diff --git a/src/core/Stage3RunnerNonRecursive.hpp b/src/core/Stage3RunnerNonRecursive.hpp
index 956fe0f..cc3cdf3 100644
--- a/src/core/Stage3RunnerNonRecursive.hpp
+++ b/src/core/Stage3RunnerNonRecursive.hpp
@@ -33,17 +33,11 @@ private:
 #if PYCENTAURUS
     auto bank_ptr = reinterpret_cast<uint64_t*>(acquire_bank());
     assert(bank_ptr != nullptr);
-    std::vector<CSTMarker> starts(*bank_ptr++, CSTMarker(0));
-    std::memcpy(starts.data(), bank_ptr, starts.size()*sizeof(CSTMarker));
-    bank_ptr += starts.size();
-    std::vector<CSTMarker> ends(*bank_ptr++, CSTMarker(0));
-    assert(ends.empty());
-    std::vector<semantic_value_type> values(*bank_ptr++);
-    std::memcpy(values.data(), bank_ptr, values.size()*sizeof(semantic_value_type));
-    assert(values[0] == 0 && values.size() == 1);
-    bank_ptr += values.size();
-    std::vector<detail::StackEntryTag> tags(*bank_ptr++);
-    std::memcpy(tags.data(), bank_ptr, tags.size()*sizeof(detail::StackEntryTag));
+    std::vector<CSTMarker> starts;
+    std::vector<semantic_value_type> values(1, 0);
+    std::vector<detail::StackEntryTag> tags;
+    reduce_entries(bank_ptr, starts, values, tags);
+    values.front() = 0; //the listener starts out with the values of the first bank
 #else
     auto bank_base_ptr = reinterpret_cast<std::tuple<std::vector<CSTMarker>,
                                                      std::vector<CSTMarker>,
@@ -61,21 +55,13 @@ private:
     void *current_bank;
     while ((current_bank = acquire_bank()) != nullptr) {
 #if PYCENTAURUS
-      auto bank_ptr = reinterpret_cast<uint64_t*>(current_bank);
-      detail::ConstPtrRange<CSTMarker> starts_next(reinterpret_cast<CSTMarker*>(bank_ptr + 1), bank_ptr[0]);
-      bank_ptr += starts_next.size() + 1;
-      detail::ConstPtrRange<CSTMarker> ends_next(reinterpret_cast<CSTMarker*>(bank_ptr + 1), bank_ptr[0]);
-      bank_ptr += ends_next.size() + 1;
-      detail::ConstPtrRange<semantic_value_type> values_next(bank_ptr + 1, bank_ptr[0]);
-      bank_ptr += values_next.size() + 1;
-      detail::ConstPtrRange<detail::StackEntryTag> tags_next(reinterpret_cast<detail::StackEntryTag*>(bank_ptr + 1), bank_ptr[0]);
+      reduce_entries(reinterpret_cast<uint64_t*>(current_bank), starts, values, tags);
 #else
       auto& stack_tuple = **reinterpret_cast<std::decay<decltype(stack_tuple_base)>::type**>(current_bank);
       auto& starts_next = std::get<0>(stack_tuple);
       auto& ends_next   = std::get<1>(stack_tuple);
       auto& values_next = std::get<2>(stack_tuple);
       auto& tags_next   = std::get<3>(stack_tuple);
-#endif
       auto starts_next_it = starts_next.begin();
       auto ends_next_it   = ends_next.begin();
       auto values_next_it = values_next.begin();
@@ -96,16 +82,15 @@ private:
       }
       assert(starts_next_it == starts_next.end());
       assert(ends_next_it == ends_next.end());
-#if !PYCENTAURUS
       assert(values_next_it == values_next.end());
-#endif
-#if !PYCENTAURUS
       delete &stack_tuple;
 #endif
       release_bank();
     }
     assert(starts.empty());
+#if !PYCENTAURUS
     assert(ends.empty());
+#endif
     assert(values.size() <= 1);
     assert(tags.size() <= 1);
 
@@ -115,8 +100,25 @@ private:
 #endif
     return result;
   }
+#if PYCENTAURUS
+  void reduce_entries(const uint64_t *src, std::vector<CSTMarker>& starts, std::vector<semantic_value_type>& values, std::vector<detail::StackEntryTag>& tags)
+  {
+    for (size_t i = 0; i < m_bank_size / 8; i++) {
+      if (src[i] == 0) break;
+      CSTMarker marker(src[i]);
+      if (marker.is_start_marker()) {
+        push_start_marker(marker, starts, tags);
+      } else if (marker.is_end_marker()) {
+        assert(!starts.empty());
+        reduce_by_end_marker(marker, starts, values, tags);
+      } else {
+        append_value(nullptr, static_cast<int>(src[i]), values, tags);
+      }
+    }
+  }
+#endif
   template <typename Iterator>
-  static void append_value(Iterator& values_next_it, int n, std::vector<semantic_value_type>& values, std::vector<detail::StackEntryTag>& tags)
+  static void append_value(Iterator&& values_next_it, int n, std::vector<semantic_value_type>& values, std::vector<detail::StackEntryTag>& tags)
   {
     if (!tags.empty() && detail::isValueTag(tags.back())) {
       tags.back() = static_cast<detail::StackEntryTag>(static_cast<int>(tags.back()) + n);
-- 
2.43.0


From 3dfcaf63879a3080395c2c4afdc5f617aeb8ac84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:17 +0000
Subject: [PATCH 31/54] fix: free the stacks of a page in the Python protocol

---
 src/core/Stage2RunnerNonRecursive.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/Stage2RunnerNonRecursive.hpp b/src/core/Stage2RunnerNonRecursive.hpp
index 082dfde..874a22b 100644
--- a/src/core/Stage2RunnerNonRecursive.hpp
+++ b/src/core/Stage2RunnerNonRecursive.hpp
@@ -177,6 +177,7 @@ private:
       }
     }
     if (dst < src + m_bank_size / 8) *dst = 0;
+    delete ptr;
 #else
     *src = reinterpret_cast<uint64_t>(ptr);
 #endif
-- 
2.43.0


From 71774319074e6706ca72d57aba0f5cf48d63f937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:44 +0000
Subject: [PATCH 32/54] fix: align the stack before a generated parser asks for
 a page

---
 src/core/CodeGenEM64T.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/CodeGenEM64T.cpp b/src/core/CodeGenEM64T.cpp
index 677585d..08ad272 100644
--- a/src/core/CodeGenEM64T.cpp
+++ b/src/core/CodeGenEM64T.cpp
@@ -418,7 +418,11 @@ void ParserEM64T<TCHAR>::emit_machine(asmjit::X86Assembler& as, const ATNMachine
         as.sub(asmjit::x86::rsp, 32);
 #endif
         as.sfence();
+        //The depth of the recursion is unknown here: align the stack as the ABI asks
+        as.mov(INPUT_BASE_REG, asmjit::x86::rsp);
+        as.and_(asmjit::x86::rsp, asmjit::Imm(-16));
         as.call((uint64_t)request_page);
+        as.mov(asmjit::x86::rsp, INPUT_BASE_REG);
 #if defined(CENTAURUS_BUILD_WINDOWS)
         as.add(asmjit::x86::rsp, 32);
 #endif
@@ -445,7 +449,11 @@ void ParserEM64T<TCHAR>::emit_machine(asmjit::X86Assembler& as, const ATNMachine
         as.sub(asmjit::x86::rsp, 32);
 #endif
         as.sfence();
+        //The depth of the recursion is unknown here: align the stack as the ABI asks
+        as.mov(INPUT_BASE_REG, asmjit::x86::rsp);
+        as.and_(asmjit::x86::rsp, asmjit::Imm(-16));
         as.call((uint64_t)request_page);
+        as.mov(asmjit::x86::rsp, INPUT_BASE_REG);
 #if defined(CENTAURUS_BUILD_WINDOWS)
         as.add(asmjit::x86::rsp, 32);
 #endif
-- 
2.43.0


From ff21623aa08ffc50e1fa4316454d05f02b1631ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:44 +0000
Subject: [PATCH 33/54] fix: align the stack before a generated chaser asks for
 a rule

---
 src/core/CodeGenEM64T.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/CodeGenEM64T.cpp b/src/core/CodeGenEM64T.cpp
index 08ad272..f5c0ff4 100644
--- a/src/core/CodeGenEM64T.cpp
+++ b/src/core/CodeGenEM64T.cpp
@@ -263,11 +263,14 @@ void ChaserEM64T<TCHAR>::emit_machine(asmjit::X86Assembler& as, const Grammar<TC
 			SkipRoutineEM64T<TCHAR>::emit(as);
 			break;
 		case ATNNodeType::Nonterminal:
+            //Three pushes keep the stack aligned
+            as.push(INPUT_REG);
             as.push(CONTEXT_REG);
 			as.push(STACK_BACKUP_REG);
             call_abs(as, request_nonterminal, CONTEXT_REG, grammar.get_machine_id(node.get_invoke()), INPUT_REG);
 			as.pop(STACK_BACKUP_REG);
 			as.pop(CONTEXT_REG);
+            as.pop(INPUT_REG);
             as.mov(INPUT_REG, asmjit::x86::rax);
 			break;
 		}
-- 
2.43.0


From 88049edeb81b779cf3ab8a76588e8ed3c1e17e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:58 +0000
Subject: [PATCH 34/54] fix: loop by vector only over character classes that
 fit the filter

---
 src/core/CodeGenEM64T.cpp      | 2 +-
 src/core/CodeGenUtilsEM64T.hpp | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/CodeGenEM64T.cpp b/src/core/CodeGenEM64T.cpp
index f5c0ff4..dbfc530 100644
--- a/src/core/CodeGenEM64T.cpp
+++ b/src/core/CodeGenEM64T.cpp
@@ -598,7 +598,7 @@ void DFARoutineEM64T<TCHAR>::emit_state(asmjit::X86Assembler& as, asmjit::Label&
 
     for (auto i = transitions.begin(); i != transitions.end();)
     {
-        if (i->dest() == index && state.is_long())
+        if (i->dest() == index && state.is_long() && fits_charclass_filter(i->label()))
         {
             pool.load_charclass_filter(PATTERN2_REG, i->label());
 
diff --git a/src/core/CodeGenUtilsEM64T.hpp b/src/core/CodeGenUtilsEM64T.hpp
index e1f72de..e80cdf2 100644
--- a/src/core/CodeGenUtilsEM64T.hpp
+++ b/src/core/CodeGenUtilsEM64T.hpp
@@ -69,6 +69,13 @@ static asmjit::Data128 pack_charclass(const CharClass<wchar_t>& cc)
     return d128;
 }
 
+//A filter holds 16 bytes of ranges, and the string instructions never look behind a NUL
+template<typename TCHAR>
+static bool fits_charclass_filter(const CharClass<TCHAR>& cc)
+{
+    return cc.size() <= 8 / sizeof(TCHAR) && !cc.includes(TCHAR(0));
+}
+
 static void push_arg(asmjit::X86Assembler& as)
 {
 }
-- 
2.43.0


From c90a72bf4d50a6418dc3ba1dfb2b6007d038db43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:58 +0000
Subject: [PATCH 35/54] fix: fill the last page of a rejected input with zeros

---
 src/core/CodeGenEM64T.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/core/CodeGenEM64T.cpp b/src/core/CodeGenEM64T.cpp
index dbfc530..5a24751 100644
--- a/src/core/CodeGenEM64T.cpp
+++ b/src/core/CodeGenEM64T.cpp
@@ -118,6 +118,15 @@ void ParserEM64T<TCHAR>::init(const Grammar<TCHAR>& grammar, asmjit::Logger *log
     }
 
     asmjit::Label landfilllabel = as.newLabel();
+    asmjit::Label filllabel = as.newLabel();
+    as.jmp(filllabel);
+
+    //A rejected input leaves no input position, but the rest of the page is filled all the same
+    as.bind(rejectlabel);
+    as.mov(asmjit::x86::rsp, STACK_BACKUP_REG);
+    as.xor_(INPUT_REG, INPUT_REG);
+
+    as.bind(filllabel);
     as.xor_(MARKER_REG, MARKER_REG);
     as.bind(landfilllabel);
     as.movnti(asmjit::X86Mem(OUTPUT_REG, 0), MARKER_REG);
@@ -140,7 +149,8 @@ void ParserEM64T<TCHAR>::init(const Grammar<TCHAR>& grammar, asmjit::Logger *log
 
     as.bind(finishlabel);
 
-    emit_parser_epilog(as, rejectlabel);
+    asmjit::Label unusedlabel = as.newLabel();
+    emit_parser_epilog(as, unusedlabel);
 
     pool.embed();
 
-- 
2.43.0


From 8e6dc2717ebb1b3a0f12487a73fcd2fc1d39fa67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:58 +0000
Subject: [PATCH 36/54] fix: keep the NUL that ends the input out of '.'

---
 src/core/CharClass.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/CharClass.hpp b/src/core/CharClass.hpp
index 0581e10..bd11f6d 100644
--- a/src/core/CharClass.hpp
+++ b/src/core/CharClass.hpp
@@ -156,7 +156,8 @@ public:
     }
     static CharClass<TCHAR> make_star()
     {
-        return CharClass<TCHAR>(0, std::numeric_limits<TCHAR>::max());
+        //NUL ends the input
+        return CharClass<TCHAR>(1, std::numeric_limits<TCHAR>::max());
     }
     bool is_epsilon() const
     {
-- 
2.43.0


From dd4b8a19975f03f737ccb62931cbba59e8e98063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:25 +0000
Subject: [PATCH 37/54] fix: loop by vector over all transitions of a state to
 itself at once

---
 src/core/CodeGenEM64T.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/core/CodeGenEM64T.cpp b/src/core/CodeGenEM64T.cpp
index 5a24751..9f61f6e 100644
--- a/src/core/CodeGenEM64T.cpp
+++ b/src/core/CodeGenEM64T.cpp
@@ -606,11 +606,20 @@ void DFARoutineEM64T<TCHAR>::emit_state(asmjit::X86Assembler& as, asmjit::Label&
 {
     std::vector<NFATransition<TCHAR> > transitions(state.get_transitions());
 
-    for (auto i = transitions.begin(); i != transitions.end();)
+    if (state.is_long())
     {
-        if (i->dest() == index && state.is_long() && fits_charclass_filter(i->label()))
+        //All transitions to the state itself are one loop
+        CharClass<TCHAR> loopclass;
+
+        for (const auto& tr : transitions)
+        {
+            if (tr.dest() == index)
+                loopclass |= tr.label();
+        }
+
+        if (!loopclass.is_epsilon() && fits_charclass_filter(loopclass))
         {
-            pool.load_charclass_filter(PATTERN2_REG, i->label());
+            pool.load_charclass_filter(PATTERN2_REG, loopclass);
 
             asmjit::Label looplabel = as.newLabel();
 
@@ -623,11 +632,14 @@ void DFARoutineEM64T<TCHAR>::emit_state(asmjit::X86Assembler& as, asmjit::Label&
             as.add(INPUT_REG, INDEX_REG);
             as.cmp(INDEX_REG, 15);
             as.jg(looplabel);
-            i = transitions.erase(i);
-        }
-        else
-        {
-            i++;
+
+            for (auto i = transitions.begin(); i != transitions.end();)
+            {
+                if (i->dest() == index)
+                    i = transitions.erase(i);
+                else
+                    i++;
+            }
         }
     }
 
-- 
2.43.0


From 71fa101b81b93014224d63b2d8fb9673150433cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:31 +0000
Subject: [PATCH 38/54] fix: end a parse of a Python context before the next
 one begins

---
 src/python/centaurus/context.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/centaurus/context.py b/src/python/centaurus/context.py
index f4b1d04..ddffe79 100644
--- a/src/python/centaurus/context.py
+++ b/src/python/centaurus/context.py
@@ -15,6 +15,7 @@ class Stage1Worker(object):
         self.runner = None
         self.core_affinity=core_affinity
     def parse(self, path):
+        self.stop()
         self.runner = Stage1Runner(path, self.parser, self.context.bank_size, self.context.bank_num)
         self.runner.start()
     def start(self):
-- 
2.43.0


From c7b3f79f6125587a2c367096279b66500c67c5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:54 +0000
Subject: [PATCH 39/54] fix: let a Python context start again after it was
 stopped

---
 src/python/centaurus/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/centaurus/context.py b/src/python/centaurus/context.py
index ddffe79..96440cd 100644
--- a/src/python/centaurus/context.py
+++ b/src/python/centaurus/context.py
@@ -35,11 +35,11 @@ class SubprocessWorker:
     def __init__(self, context, core_affinity=-1):
         self.context = context
         self.master_pid = os.getpid()
-        self.proc = mp.Process(target=self.workloop)
         self.cmd_queue = mp.Queue()
         self.listener = None
         self.core_affinity = core_affinity
     def start(self):
+        self.proc = mp.Process(target=self.workloop)
         self.proc.start()
     def stop(self):
         self.cmd_queue.put(('stop', None))
-- 
2.43.0


From c8e7b0e533f0d1245c515b93664518e95099a5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:54 +0000
Subject: [PATCH 40/54] fix: end the parse of a rejected input in Python

---
 src/python/centaurus/context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/centaurus/context.py b/src/python/centaurus/context.py
index 96440cd..ff53273 100644
--- a/src/python/centaurus/context.py
+++ b/src/python/centaurus/context.py
@@ -79,8 +79,8 @@ class Stage3Worker(SubprocessWorker):
         runner.attach(adapter.reduction_callback, adapter.transfer_callback)
         runner.start()
         runner.wait()
-        assert len(adapter.values) <= 1
-        self.context.drain.put(adapter.values[0] if adapter.values else None)
+        #A rejected input leaves any number of values
+        self.context.drain.put(adapter.values[0] if len(adapter.values) == 1 else None)
 
 class Context(object):
     bank_size = 8 * 1024 * 1024
-- 
2.43.0


From 45e0731d8e7959c806ded42697359692edcc31a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:04 +0000
Subject: [PATCH 41/54] fix: report an output file that cannot be written

---
 src/tool/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tool/main.cpp b/src/tool/main.cpp
index 4d7ac69..98c38bf 100644
--- a/src/tool/main.cpp
+++ b/src/tool/main.cpp
@@ -181,6 +181,9 @@ int main(int argc, char *argv[])
             if (!output_path.empty())
             {
                 output_file.open(output_path.c_str());
+
+                if (!output_file)
+                    throw SimpleException(std::string("Cannot open ") + output_path);
             }
             std::wostream& output_stream = output_path.empty() ? std::wcout : output_file;
 
-- 
2.43.0


From 66815e9930d815cfccd71a3096742c38e7bae3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:04 +0000
Subject: [PATCH 42/54] fix: read patterns with non-ASCII bytes from the
 command line

---
 src/tool/main.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tool/main.cpp b/src/tool/main.cpp
index 98c38bf..c59e4ad 100644
--- a/src/tool/main.cpp
+++ b/src/tool/main.cpp
@@ -219,7 +219,12 @@ int main(int argc, char *argv[])
             }
             else
             {
-                Stream stream(enc.mbstowcs(pattern_string));
+                //As in a grammar, each byte is a character
+                std::wstring wide_pattern;
+                for (unsigned char ch : pattern_string)
+                    wide_pattern.push_back(ch);
+
+                Stream stream(std::move(wide_pattern));
 
                 switch (mode)
                 {
-- 
2.43.0


From e53c5c5627edf408331be5d492cf8777c1da1c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:04 +0000
Subject: [PATCH 43/54] fix: ask for the grammar and the machine of a composite
 ATN

---
 src/tool/main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool/main.cpp b/src/tool/main.cpp
index c59e4ad..daa78d4 100644
--- a/src/tool/main.cpp
+++ b/src/tool/main.cpp
@@ -78,12 +78,12 @@ int main(int argc, char *argv[])
                 (
                     clipp::in_sequence
                     (
-                        clipp::option("-g", "--grammar-file").set(source, GrammarFileSource),
+                        clipp::required("-g", "--grammar-file").set(source, GrammarFileSource),
                         clipp::value("grammar file", grammar_path)
                     ),
                     clipp::in_sequence
                     (
-                        clipp::option("-m", "--machine"),
+                        clipp::required("-m", "--machine"),
                         clipp::value("machine name", machine_name)
                     )
                 )
-- 
2.43.0


From c882c7028891e6175aeab6cb1f2e09bcb8851937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:37 +0000
Subject: [PATCH 44/54] fix: include files whose names have non-ASCII bytes

---
 src/core/Grammar.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index 9073bc6..e056cf0 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -114,14 +114,15 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
                 throw stream.unexpected(ch);
             stream.discard();
 
-            Encoder enc{};
+            //The path has the bytes of the grammar file
+            std::string path(wide_path.begin(), wide_path.end());
 
             //Files that include each other would never end
             if (m_include_depth >= 64)
                 throw SimpleException("Includes are nested too deeply.");
 
             m_include_depth++;
-            machine_id = parse(make_include_path(filename, enc.wcstombs(wide_path)), machine_id);
+            machine_id = parse(make_include_path(filename, path), machine_id);
             m_include_depth--;
         }
         else
-- 
2.43.0


From a629fb3cdce0b3117f5eda5d4602893f7034fd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:15 +0000
Subject: [PATCH 45/54] fix: report paths to nodes a rule does not have

---
 src/core/ATN.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ATN.hpp b/src/core/ATN.hpp
index 25fabf7..20ae0db 100644
--- a/src/core/ATN.hpp
+++ b/src/core/ATN.hpp
@@ -269,7 +269,7 @@ public:
     }
     const ATNNode<TCHAR>& get_node(int index) const
     {
-        return m_nodes[index];
+        return m_nodes.at(index);
     }
     int get_node_num() const
     {
-- 
2.43.0


From 8fd2cbab60f209ce5fd0789640e166df31e898cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:09 +0000
Subject: [PATCH 46/54] fix: ask for a number as the depth of a diagram

---
 src/tool/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/main.cpp b/src/tool/main.cpp
index daa78d4..0d5e44a 100644
--- a/src/tool/main.cpp
+++ b/src/tool/main.cpp
@@ -68,7 +68,7 @@ int main(int argc, char *argv[])
                     clipp::in_sequence
                     (
                         clipp::required("-d", "--max-depth"),
-                        clipp::value("maxdepth", max_depth)
+                        clipp::integer("maxdepth", max_depth)
                     ),
                     clipp::option("--optimize").set(optimize_flag, true)
                 )
-- 
2.43.0


From c9b7de46ac62a94a72287bce2ee817ebbc286ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:38 +0000
Subject: [PATCH 47/54] fix: end a Python parse when all of its workers have

---
 src/python/centaurus/context.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/python/centaurus/context.py b/src/python/centaurus/context.py
index ff53273..e2190b2 100644
--- a/src/python/centaurus/context.py
+++ b/src/python/centaurus/context.py
@@ -36,6 +36,7 @@ class SubprocessWorker:
         self.context = context
         self.master_pid = os.getpid()
         self.cmd_queue = mp.Queue()
+        self.parsed = mp.Semaphore(0)
         self.listener = None
         self.core_affinity = core_affinity
     def start(self):
@@ -46,6 +47,8 @@ class SubprocessWorker:
         self.proc.join()
     def parse(self, path):
         self.cmd_queue.put(('parse', path))
+    def wait(self):
+        self.parsed.acquire()
     def attach(self, listener):
         self.listener = listener
     def set_core_affinity(self, core_affinity):
@@ -63,6 +66,7 @@ class SubprocessWorker:
                 break
             elif cmd == 'parse':
                 self.parse_impl(arg)
+                self.parsed.release()
 
 class Stage2Worker(SubprocessWorker):
     def parse_impl(self, path):
@@ -98,7 +102,11 @@ class Context(object):
     def parse(self, path):
         for w in itertools.chain(self.serial_workers, self.parallel_workers):
             w.parse(path)
-        return self.drain.get()
+        value = self.drain.get()
+        #A worker that is late would take the pages of the next parse for those of this one
+        for w in self.parallel_workers:
+            w.wait()
+        return value
     def stop(self):
         for w in itertools.chain(self.serial_workers, self.parallel_workers):
             w.stop()
-- 
2.43.0


From 06f065b2d24dfdafc241ba3c7a594037eef0a604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:38 +0000
Subject: [PATCH 48/54] fix: refuse values outside a symbol in Python

---
 src/python/centaurus/listener.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/centaurus/listener.py b/src/python/centaurus/listener.py
index ddece13..999f461 100644
--- a/src/python/centaurus/listener.py
+++ b/src/python/centaurus/listener.py
@@ -49,6 +49,11 @@ class BaseListenerAdapter(object):
     def __len__(self):
         return self.argc
     def __getitem__(self, index):
+        #The values below belong to the symbols around this one
+        if index < 0:
+            index += self.argc
+        if not 0 <= index < self.argc:
+            raise IndexError('Symbol has %d values.' % self.argc)
         return self.values[len(self.values) - self.argc + index]
     def __iter__(self):
         return (self.values[i] for i in range(len(self.values) - self.argc, len(self.values)))
-- 
2.43.0


From 5ad3e129509023e1ff1b4150e50c16a2cdf5933a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:41 +0000
Subject: [PATCH 49/54] fix: do not assert that every input is accepted

---
 src/core/Stage3RunnerNonRecursive.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/Stage3RunnerNonRecursive.hpp b/src/core/Stage3RunnerNonRecursive.hpp
index cc3cdf3..a1e83e7 100644
--- a/src/core/Stage3RunnerNonRecursive.hpp
+++ b/src/core/Stage3RunnerNonRecursive.hpp
@@ -87,12 +87,10 @@ private:
 #endif
       release_bank();
     }
-    assert(starts.empty());
+    //A rejected input leaves symbols that have begun only, and any number of values
 #if !PYCENTAURUS
     assert(ends.empty());
 #endif
-    assert(values.size() <= 1);
-    assert(tags.size() <= 1);
 
     auto result = (values.empty()) ? 0 : std::move(values.front());
 #if !PYCENTAURUS
-- 
2.43.0


From cededbaa827878ff54eac16ed2f7b6ec13ce210d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:41 +0000
Subject: [PATCH 50/54] fix: refuse to decide at a node where no decision is
 taken

---
 src/core/CompositeATN.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/CompositeATN.hpp b/src/core/CompositeATN.hpp
index 0468d49..3f800e7 100644
--- a/src/core/CompositeATN.hpp
+++ b/src/core/CompositeATN.hpp
@@ -550,7 +550,8 @@ public:
         for (unsigned int i = 0; i < transitions.size(); i++)
         {
             //All transitions originating from the root node must be epsilon transitions
-            assert(transitions[i].is_epsilon());
+            if (!transitions[i].is_epsilon())
+                throw SimpleException("No decision is taken at this node.");
 
             build_closure_inclusive(closure, path.replace_index(transitions[i].dest()), i + 1, stack, PriorityChain(path.leaf_id(), path.leaf_index(), transitions[i].tag()));
         }
-- 
2.43.0


From 5b288419d4a49bf4fdc4d0d965f10799e0b64869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:23 +0000
Subject: [PATCH 51/54] fix: refuse a range of characters that ends before it
 begins

---
 src/core/CharClass.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/CharClass.cpp b/src/core/CharClass.cpp
index 5d1ed37..55c8e46 100644
--- a/src/core/CharClass.cpp
+++ b/src/core/CharClass.cpp
@@ -95,6 +95,11 @@ void CharClass<TCHAR>::parse(Stream& stream)
             {
                 throw stream.unexpected(ch);
             }
+            else if (ch < start)
+            {
+                //The range would be malformed
+                throw stream.unexpected(ch);
+            }
             else
             {
                 *this |= Range<TCHAR>(start, ch + 1);
-- 
2.43.0


From debd6227aa2178e56bdf5ad9dc10c9d0db183e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:49 +0000
Subject: [PATCH 52/54] fix: raise an exception for a bad grammar in Python

---
 src/pydll/PyCentaurus.cpp       | 18 +++++++++++++++++-
 src/python/centaurus/corelib.py |  6 ++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/pydll/PyCentaurus.cpp b/src/pydll/PyCentaurus.cpp
index eab4765..75e4e46 100644
--- a/src/pydll/PyCentaurus.cpp
+++ b/src/pydll/PyCentaurus.cpp
@@ -21,9 +21,25 @@ namespace Centaurus
 namespace Centaurus __attribute__((visibility("default")))
 #endif
 {
+	//An exception must not leave the library: the caller gets a null pointer, and asks for the message
+	static thread_local std::string error_message;
+
+	CENTAURUS_EXPORT(const char *) GetErrorMessage()
+	{
+		return error_message.c_str();
+	}
+
 	CENTAURUS_EXPORT(IGrammar *) GrammarCreate(const char *filename)
 	{
-		return new Grammar<unsigned char>(filename);
+		try
+		{
+			return new Grammar<unsigned char>(filename);
+		}
+		catch (const std::exception& ex)
+		{
+			error_message = ex.what();
+			return nullptr;
+		}
 	}
 
 	CENTAURUS_EXPORT(void) GrammarDestroy(IGrammar *grammar)
diff --git a/src/python/centaurus/corelib.py b/src/python/centaurus/corelib.py
index 19fcd01..7117e0c 100644
--- a/src/python/centaurus/corelib.py
+++ b/src/python/centaurus/corelib.py
@@ -5,6 +5,8 @@ import ctypes
 import platform
 
 import logging
+from .listener import GrammarException
+
 logger = logging.getLogger(__name__)
 
 def load_dll():
@@ -17,6 +19,8 @@ def load_dll():
 
 CoreLib = load_dll()
 
+CoreLib.GetErrorMessage.restype = ctypes.c_char_p
+
 EnumMachinesCallback = ctypes.CFUNCTYPE(None, ctypes.c_wchar_p, ctypes.c_int)
 
 class Grammar(object):
@@ -31,6 +35,8 @@ class Grammar(object):
 
     def __init__(self, filename):
         self.handle = CoreLib.GrammarCreate(filename.encode('utf-8'))
+        if not self.handle:
+            raise GrammarException(CoreLib.GetErrorMessage().decode('utf-8', 'replace'))
         self.actions = []
         self.ids = {}
         CoreLib.GrammarEnumMachines(self.handle, EnumMachinesCallback(self.enum_machines_callback))
-- 
2.43.0


From fc385fd22370a44d96b08c7095fc2cc17b765bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:49 +0000
Subject: [PATCH 53/54] fix: raise an exception for a diagram that cannot be
 drawn in Python

---
 src/pydll/PyCentaurus.cpp       | 24 +++++++++++++++++++++---
 src/python/centaurus/corelib.py |  4 +++-
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/pydll/PyCentaurus.cpp b/src/pydll/PyCentaurus.cpp
index 75e4e46..888d115 100644
--- a/src/pydll/PyCentaurus.cpp
+++ b/src/pydll/PyCentaurus.cpp
@@ -47,11 +47,29 @@ namespace Centaurus __attribute__((visibility("default")))
 		delete grammar;
 	}
 
-	CENTAURUS_EXPORT(void) GrammarPrint(IGrammar *grammar, const char *filename, int maxdepth)
+	CENTAURUS_EXPORT(bool) GrammarPrint(IGrammar *grammar, const char *filename, int maxdepth)
 	{
-		std::wofstream ofs(filename);
+		try
+		{
+			std::wofstream ofs(filename);
+
+			if (!ofs)
+				throw SimpleException(std::string("Cannot open ") + filename);
+
+			grammar->print_grammar(ofs, maxdepth);
+
+			ofs.close();
+
+			if (!ofs)
+				throw SimpleException(std::string("Cannot write ") + filename);
 
-		grammar->print_grammar(ofs, maxdepth);
+			return true;
+		}
+		catch (const std::exception& ex)
+		{
+			error_message = ex.what();
+			return false;
+		}
 	}
 
 	CENTAURUS_EXPORT(void) GrammarEnumMachines(IGrammar *grammar, EnumMachinesCallback callback)
diff --git a/src/python/centaurus/corelib.py b/src/python/centaurus/corelib.py
index 7117e0c..e0e2fc9 100644
--- a/src/python/centaurus/corelib.py
+++ b/src/python/centaurus/corelib.py
@@ -29,6 +29,7 @@ class Grammar(object):
     CoreLib.GrammarCreate.argtypes = [ctypes.c_char_p]
     CoreLib.GrammarDestroy.argtypes = [ctypes.c_void_p]
     #corelib.GrammarAddRule.argtypes = [ctypes.c_void_p, ctypes.c_wchar_p, ctypes.c_wchar_p]
+    CoreLib.GrammarPrint.restype = ctypes.c_bool
     CoreLib.GrammarPrint.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_int]
     CoreLib.GrammarEnumMachines.argtypes = [ctypes.c_void_p, EnumMachinesCallback]
     CoreLib.GrammarOptimize.argtypes = [ctypes.c_void_p]
@@ -48,7 +49,8 @@ class Grammar(object):
     def __del__(self):
         CoreLib.GrammarDestroy(self.handle)
     def print(self, filename):
-        CoreLib.GrammarPrint(self.handle, filename.encode('utf-8'), 4)
+        if not CoreLib.GrammarPrint(self.handle, filename.encode('utf-8'), 4):
+            raise GrammarException(CoreLib.GetErrorMessage().decode('utf-8', 'replace'))
     def optimize(self):
         CoreLib.GrammarOptimize(self.handle)
     def get_machine_id(self, name):
-- 
2.43.0


From c1d246d5306301c8965fa39b3e5aed3f72503ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:12 +0000
Subject: [PATCH 54/54] fix: log exceptions and stacks of worker processes once

---
 src/python/centaurus/Logger.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/python/centaurus/Logger.py b/src/python/centaurus/Logger.py
index ce295dd..53562a2 100644
--- a/src/python/centaurus/Logger.py
+++ b/src/python/centaurus/Logger.py
@@ -1,3 +1,4 @@
+import copy
 import logging
 import threading
 import multiprocessing as mp
@@ -8,10 +9,15 @@ class CustomQueueHandler(logging.Handler):
         self.queue = queue
     def prepare(self, record):
         msg = self.format(record)
+        #Other handlers get the record as it was
+        record = copy.copy(record)
         record.message = msg
         record.msg = msg
         record.args = None
         record.exc_info = None
+        #The message includes them
+        record.exc_text = None
+        record.stack_info = None
         return record
     def emit(self, record):
         try:
-- 
2.43.0

