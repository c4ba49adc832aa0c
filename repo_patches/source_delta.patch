From e872130b412dbb6ced8d17d542e16026eef40f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:18 +0000
Subject: [PATCH 01/55] fix: connect dependent and query index variables to
 their own kind

_init_indexvars never advanced the iterator over the component's index
variables, so all three kinds of the parent were connected to the
independent variables of the component.
---
 Narsese/include/Term.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Narsese/include/Term.inl b/Narsese/include/Term.inl
index 0660714..5a0a840 100644
--- a/Narsese/include/Term.inl
+++ b/Narsese/include/Term.inl
@@ -23,6 +23,7 @@ namespace TERM
             {
                 auto indexvar2 = *it;
                 IndexVar::connect(indexvar1, indexvar2, false);
+                ++it;
             }
         }
     }
@@ -37,6 +38,7 @@ namespace TERM
             {
                 auto indexvar2 = *it;
                 IndexVar::connect(indexvar1, indexvar2, false);
+                ++it;
             }
         }
     }
-- 
2.43.0


From 8d86beb6c560e5db10704731fce0bbbfb9debfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:18 +0000
Subject: [PATCH 02/55] fix: compare query/dependent variables by their own
 index

operator== read the (empty) independent index list of the left operand.
---
 Narsese/include/Term.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/include/Term.inl b/Narsese/include/Term.inl
index 5a0a840..fa3a588 100644
--- a/Narsese/include/Term.inl
+++ b/Narsese/include/Term.inl
@@ -71,9 +71,9 @@ namespace TERM
             if (this->is_var || other.is_var)
             {
                 if (this->is_qvar && other.is_qvar)
-                    return *(this->_vars_independent->indices[0]) == *(other._vars_query->indices[0]);
+                    return *(this->_vars_query->indices[0]) == *(other._vars_query->indices[0]);
                 else if (this->is_dvar && other.is_dvar)
-                    return *(this->_vars_independent->indices[0]) == *(other._vars_dependent->indices[0]);
+                    return *(this->_vars_dependent->indices[0]) == *(other._vars_dependent->indices[0]);
                 else if (this->is_ivar && other.is_ivar)
                     return *(this->_vars_independent->indices[0]) == *(other._vars_independent->indices[0]);
             }
-- 
2.43.0


From c52530c71bf3c10bcba09fbc6185946092bde223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:18 +0000
Subject: [PATCH 03/55] fix: make the order of terms a strict weak order
 consistent with equality

The comparison of components was not lexicographic (both a < b and b < a
could hold), and two different variable-free terms whose hashes collide
were treated as equivalent, so that sets of terms lost members.
---
 Narsese/include/Term.inl | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/Narsese/include/Term.inl b/Narsese/include/Term.inl
index fa3a588..2ee96dd 100644
--- a/Narsese/include/Term.inl
+++ b/Narsese/include/Term.inl
@@ -123,9 +123,7 @@ namespace TERM
         if (hash(*this) != hash(other))
             return hash(*this) < hash(other);
 
-        if (!this->has_var && !other.has_var)
-            return hash(*this) < hash(other);
-        else if (!this->has_var && other.has_var)
+        if (!this->has_var && other.has_var)
             return false;
         else if (this->has_var && !other.has_var)
             return true;
@@ -153,11 +151,13 @@ namespace TERM
 
             if (*(term1.subject) < *(term2.subject))
                 return true;
+            if (*(term2.subject) < *(term1.subject))
+                return false;
             if (*(term1.predicate) < *(term2.predicate))
                 return true;
-            if (term1.copula < term2.copula)
-                return true;
-            return false;
+            if (*(term2.predicate) < *(term1.predicate))
+                return false;
+            return term1.copula < term2.copula;
         }
         else if (this->is_compound())
         {
@@ -173,6 +173,8 @@ namespace TERM
                 auto &term2 = **it2;
                 if ((term1 < term2))
                     return true;
+                if ((term2 < term1))
+                    return false;
             }
             return false;
             // throw std::logic_error("TODO");
-- 
2.43.0


From 5456a4b32b83f9ce258e0e641644971f7f8c8041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:36 +0000
Subject: [PATCH 04/55] fix: give Term a virtual destructor

Variables, statements and compounds are deleted through Term pointers.
---
 Narsese/include/Term.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Narsese/include/Term.h b/Narsese/include/Term.h
index 336ee18..bc34ab9 100755
--- a/Narsese/include/Term.h
+++ b/Narsese/include/Term.h
@@ -124,6 +124,7 @@ namespace TERM
         // string word;
         Term() : hash_value(Hash{}(std::initializer_list<size_t>{(size_t)TermType::ATOM, (size_t)this})), is_hashed(true){};
         Term(const TermType _type) : type(_type) {}
+        virtual ~Term() = default;
         // ~Term()
         // {
         //     std::cout << (size_t)this << " Term freed" << std::endl;
-- 
2.43.0


From aa8ca067e949684039601d743f325143e9621e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:36 +0000
Subject: [PATCH 05/55] fix: look an operation up by its own name

operation() tested whether the plain word was registered, and then used
the (possibly missing) entry of the operation.
---
 Narsese/Parser/NarseseParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/Parser/NarseseParser.cpp b/Narsese/Parser/NarseseParser.cpp
index a90e80c..22e8b84 100644
--- a/Narsese/Parser/NarseseParser.cpp
+++ b/Narsese/Parser/NarseseParser.cpp
@@ -458,7 +458,7 @@ void *NARSESEPARSER::operation(Parser *self, const Args &args)
 	auto &str = *((std::string *)args[0]);
 	auto str_op = "^" + str;
 	pTerm *term;
-	if (INTERPRETER::interpreter.check_by_name(str) > 0)
+	if (INTERPRETER::interpreter.check_by_name(str_op) > 0)
 	{
 		auto key = INTERPRETER::interpreter.get_by_name(str_op);
 		term = (pTerm *)INTERPRETER::interpreter.get_object(key);
-- 
2.43.0


From 6971fbc1355d85ffead6fd35a35393985d125d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:38 +0000
Subject: [PATCH 06/55] fix: print compounds without components

The printer stepped back from the end of an empty set of components.
---
 Interpreter/src/Interpreter.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index 3c44eba..c3627fe 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -78,17 +78,19 @@ string Interpreter::interpret(Term &term, bool colored)
      If the term is atomic, add the term into the dictionary. */
     auto append_strs = [this, colored](std::stringstream &_ss, const TERM::Terms &components)
     {
+        bool is_first = true;
         for (auto it = components.begin(); it != components.end(); ++it)
         {
             auto &tm = **it;
-            _ss << this->interpret(tm, colored);
-            if (it != components.end() - 1)
+            if (!is_first)
             {
                 if (colored)
                     _ss << fmt::format(color_seperator, ", ");
                 else
                     _ss << ", ";
             }
+            is_first = false;
+            _ss << this->interpret(tm, colored);
         }
     };
     if (term.type == TermType::ATOM)
@@ -161,7 +163,6 @@ string Interpreter::interpret(Term &term, bool colored)
         auto &cmpd = (Compound &)term;
         auto &components = cmpd.components();
         auto str_conn = CONNECTOR::Repr[(int)cmpd.connector];
-        auto last_it = components.end() - 1;
 
         if (colored)
         {
-- 
2.43.0


From 1f070da1c2988825552871fdb736273bd107e47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:38 +0000
Subject: [PATCH 07/55] fix: print a statement as an operation only if it is
 one

<A --> ^go> and <A ==> (^go, B)> took the operation branch, which reads
the subject as a compound.
---
 Interpreter/src/Interpreter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index c3627fe..54cc71d 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -117,7 +117,11 @@ string Interpreter::interpret(Term &term, bool colored)
     {
         auto &stat = (Statement &)term;
         std::stringstream ss;
-        if (!stat.is_operation)
+        /* `is_operation` is inherited from the predicate, so it is also set for statements which merely mention an operation. */
+        bool is_call = stat.is_operation && stat.copula == COPULA::Inheritance &&
+                       stat.predicate->is_atom() && stat.predicate->is_operation &&
+                       stat.subject->is_compound() && stat.subject->connector == CONNECTOR::Product;
+        if (!is_call)
         {
             auto str_subject = this->interpret(*stat.subject, colored);
             auto str_predicate = this->interpret(*stat.predicate, colored);
-- 
2.43.0


From 2645c4b7d068862cefdec517dffca9cfbac0c236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:38 +0000
Subject: [PATCH 08/55] fix: print an operation without arguments so that it
 can be read back

---
 Interpreter/src/Interpreter.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index 54cc71d..2c820d3 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -148,13 +148,17 @@ string Interpreter::interpret(Term &term, bool colored)
             auto &cmpd = (Compound &)*stat.subject;
             if (colored)
             {
-                ss << fmt::format(color_parenthesis, "(") << str_op << fmt::format(color_seperator, ", ");
+                ss << fmt::format(color_parenthesis, "(") << str_op;
+                if (cmpd.terms->size() > 0)
+                    ss << fmt::format(color_seperator, ", ");
                 append_strs(ss, cmpd.components());
                 ss << fmt::format(color_parenthesis, ")");
             }
             else
             {
-                ss << "(" << str_op << ", ";
+                ss << "(" << str_op;
+                if (cmpd.terms->size() > 0)
+                    ss << ", ";
                 append_strs(ss, cmpd.components());
                 ss << ")";
             }
-- 
2.43.0


From b4eabe354269ad0180ad97cc447bba3c0181183f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:38 +0000
Subject: [PATCH 09/55] fix: do not use names as format strings in colored
 output

A quoted name with braces made the colored printer throw.
---
 Interpreter/src/Interpreter.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index 2c820d3..b5c88e7 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -45,7 +45,7 @@ string Interpreter::interpret(Term &term, bool colored)
             auto str = prefix + std::to_string(idx_var);
             if (colored)
             {
-                return fmt::format(color_term, str);
+                return fmt::format(color_term, "{}", str);
             }
             else
             {
@@ -56,7 +56,7 @@ string Interpreter::interpret(Term &term, bool colored)
         {
             auto &interval = (INTERVAL::Interval &)term;
             if (colored)
-                return fmt::format(color_number, fmt::format("{:+d}", interval.interval));
+                return fmt::format(color_number, "{:+d}", interval.interval);
             else
                 return fmt::format("{:+d}", interval.interval);
         }
@@ -68,9 +68,9 @@ string Interpreter::interpret(Term &term, bool colored)
         if (term.type == TermType::ATOM && colored)
         {
             if (!term.is_operation)
-                return fmt::format(color_term, this->get(key));
+                return fmt::format(color_term, "{}", this->get(key));
             else
-                return fmt::format(color_operation, this->get(key));
+                return fmt::format(color_operation, "{}", this->get(key));
         }
         return this->get(key);
     }
@@ -133,7 +133,7 @@ string Interpreter::interpret(Term &term, bool colored)
                 auto str1 = fmt::format(color_angle, "<");
                 // auto str2 = fmt::format(color_term, str_subject);
                 auto str2 = fmt::format(fmt::format(color_term, "{{}}"), str_subject);
-                auto str3 = fmt::format(color_copula, str_copula);
+                auto str3 = fmt::format(color_copula, "{}", str_copula);
                 // auto str4 = fmt::format(color_term, str_predicate);
                 auto str4 = fmt::format(fmt::format(color_term, "{{}}"), str_predicate);
                 auto str5 = fmt::format(color_angle, ">");
-- 
2.43.0


From 0bdee6fbc6bf4aebd0826eea30731faa6423e4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:38 +0000
Subject: [PATCH 10/55] fix: colored sentences can be printed

The format string had more placeholders than arguments and always threw.
---
 Interpreter/src/Interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index b5c88e7..589c546 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -277,7 +277,7 @@ string Interpreter::interpret(Sentence &sentence, bool colored)
         str_punct = fmt::format(color_punct, SENTENCE::PUNCTUATION::Repr[(int)(sentence.punct)]);
         str_stamp = sentence.stamp->is_eternal ? "" : fmt::format(color_tense, "{} ", TENSE::Repr[sentence.stamp->tense()]);
 
-        return fmt::format("{}{} {}{} {}{}", str_term, str_punct, str_stamp, str_truth);
+        return fmt::format("{}{} {}{}", str_term, str_punct, str_stamp, str_truth);
     }
     else
     {
-- 
2.43.0


From 5bd6141ed8c8c4f228f280f2683ae07dbc1cae95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:38 +0000
Subject: [PATCH 11/55] fix: color the sentence of a colored task

---
 Interpreter/src/Interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index 589c546..5d30d9d 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -239,7 +239,7 @@ string Interpreter::interpret(Task &task, bool colored)
     auto color_durability = fmt::bg(fmt::rgb(10, std::min(255, int(255 * d / 2 + 10)), 10));
     auto color_quality = fmt::bg(fmt::rgb(10, 10, std::min(255, int(255 * q / 1.5 + 10))));
 
-    auto str_sentence = interpret(*task.sentence);
+    auto str_sentence = interpret(*task.sentence, colored);
 
     if (colored)
     {
-- 
2.43.0


From 27fb54ac1968aeaacceb9b45c2b5908ba232f254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:38 +0000
Subject: [PATCH 12/55] fix: read the truth of any goal sentence when printing

A goal that was created as a plain Sentence has no `desire` reference.
---
 Interpreter/src/Interpreter.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index 5d30d9d..a99604f 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -266,12 +266,12 @@ string Interpreter::interpret(Sentence &sentence, bool colored)
     {
         if (sentence.is_judgement())
         {
-            const auto &truth = *((SENTENCE::Judgement &)sentence).truth;
+            const auto &truth = *sentence.truth;
             str_truth = fmt::format("{0}{1}{3}{2}{0}", fmt::format(color_percent, "%"), fmt::format(color_number, "{:.3f}", truth.f), fmt::format(color_number, "{:.3f}", truth.c), fmt::format(color_percent, ";"));
         }
         else if (sentence.is_goal())
         {
-            auto &truth = *((SENTENCE::Goal &)sentence).desire;
+            auto &truth = *sentence.truth;
             str_truth = fmt::format("{0}{1}{3}{2}{0}", fmt::format(color_percent, "%"), fmt::format(color_number, "{:.3f}", truth.f), fmt::format(color_number, "{:.3f}", truth.c), fmt::format(color_percent, ";"));
         }
         str_punct = fmt::format(color_punct, SENTENCE::PUNCTUATION::Repr[(int)(sentence.punct)]);
@@ -283,12 +283,12 @@ string Interpreter::interpret(Sentence &sentence, bool colored)
     {
         if (sentence.is_judgement())
         {
-            auto &truth = *((SENTENCE::Judgement &)sentence).truth;
+            auto &truth = *sentence.truth;
             str_truth = fmt::format("%{:.3f};{:.3f}%", truth.f, truth.c);
         }
         else if (sentence.is_goal())
         {
-            auto &truth = *((SENTENCE::Goal &)sentence).desire;
+            auto &truth = *sentence.truth;
             str_truth = fmt::format("%{:.3f};{:.3f}%", truth.f, truth.c);
         }
         str_punct = SENTENCE::PUNCTUATION::Repr[(int)(sentence.punct)];
-- 
2.43.0


From 2b6ad5122e602d309609926d0a0b42b517bd888b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:38 +0000
Subject: [PATCH 13/55] fix: print negative intervals so that they can be read
 back

An interval is a `+` followed by an integer: `+-3`, not `-3`.
---
 Interpreter/src/Interpreter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index a99604f..f632a6e 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -56,9 +56,9 @@ string Interpreter::interpret(Term &term, bool colored)
         {
             auto &interval = (INTERVAL::Interval &)term;
             if (colored)
-                return fmt::format(color_number, "{:+d}", interval.interval);
+                return fmt::format(color_number, "+{}", interval.interval);
             else
-                return fmt::format("{:+d}", interval.interval);
+                return fmt::format("+{}", interval.interval);
         }
     }
 
-- 
2.43.0


From 64aa1f6af5e31c83eabf4dc9f9065573ead9913d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:38 +0000
Subject: [PATCH 14/55] fix: keep all bits of the keys of the interpreter's
 registry

The keys are hashes; cut to int, different terms share an entry.
---
 Interpreter/include/Interpreter.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Interpreter/include/Interpreter.hpp b/Interpreter/include/Interpreter.hpp
index d179b37..4f23977 100644
--- a/Interpreter/include/Interpreter.hpp
+++ b/Interpreter/include/Interpreter.hpp
@@ -38,7 +38,7 @@ namespace INTERPRETER
         map<string, size_t> dictionary_inv;
         map<size_t, int> count;
 
-        inline void put(int key, string name, void *object)
+        inline void put(size_t key, string name, void *object)
         {
             dictionary[key] = name;
             objects[key] = (pTerm *)object;
@@ -46,12 +46,12 @@ namespace INTERPRETER
             count[key] = (check_count(key) == 0) ? 1 : (count[key] + 1);
         }
 
-        inline string &get(int key) { return dictionary[key]; }
-        inline pTerm *get_object(int key) { return objects[key]; }
-        inline int get_by_name(string &name) { return dictionary_inv[name]; }
-        inline bool check(int key) { return dictionary.count(key) == 1; }
+        inline string &get(size_t key) { return dictionary[key]; }
+        inline pTerm *get_object(size_t key) { return objects[key]; }
+        inline size_t get_by_name(string &name) { return dictionary_inv[name]; }
+        inline bool check(size_t key) { return dictionary.count(key) == 1; }
         inline bool check_by_name(string &name) { return dictionary_inv.count(name) == 1; }
-        inline int check_count(int key)
+        inline int check_count(size_t key)
         {
             if (count.count(key) == 0)
             {
@@ -68,7 +68,7 @@ namespace INTERPRETER
             }
         }
 
-        inline bool remove(int key)
+        inline bool remove(size_t key)
         {
             if (check(key))
             {
@@ -118,7 +118,7 @@ namespace INTERPRETER
             }
         }
 
-        inline bool erase(int key)
+        inline bool erase(size_t key)
         {
             if (check_count(key) > 0)
             {
-- 
2.43.0


From 40c31a2381394c8573c437cc04b12adb8e269f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:38 +0000
Subject: [PATCH 15/55] fix: release the handles of all terms when the
 interpreter is reset

The handle of a term that was still in use was leaked, and with it the term.
---
 Interpreter/include/Interpreter.hpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/Interpreter/include/Interpreter.hpp b/Interpreter/include/Interpreter.hpp
index 4f23977..d9049d7 100644
--- a/Interpreter/include/Interpreter.hpp
+++ b/Interpreter/include/Interpreter.hpp
@@ -150,18 +150,13 @@ namespace INTERPRETER
         void reset()
         {
 
-            for (auto pair : objects)
-            {
-                auto ptr = pair.second;
-                if ((*ptr).use_count() == 1)
-                {
-                    delete ptr;
-                }
-            }
+            auto objects_old = std::move(objects);
             objects.clear();
             dictionary.clear();
             dictionary_inv.clear();
             count.clear();
+            for (auto pair : objects_old)
+                delete pair.second;
         }
 
         ~Interpreter()
-- 
2.43.0


From 49f8afc2f3f9b385e5806dbad78e92e53386d9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:38 +0000
Subject: [PATCH 16/55] fix: forget an atom whose last handle is overwritten

Assigning to a pTerm released the term without removing it from the
interpreter.
---
 Narsese/include/Term.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Narsese/include/Term.h b/Narsese/include/Term.h
index bc34ab9..4ff00f6 100755
--- a/Narsese/include/Term.h
+++ b/Narsese/include/Term.h
@@ -59,6 +59,16 @@ namespace TERM
         pTerm(Term *term, void *interpreter = nullptr) : std::shared_ptr<Term>(term), _interpreter(interpreter) {}
         // pTerm() : std::shared_ptr<Term>() {}
 
+        pTerm(const pTerm &other) = default;
+
+        pTerm &operator=(const pTerm &other)
+        {
+            pTerm temp(other); // takes over the old term, and releases it the way `~pTerm` does.
+            this->swap(temp);
+            std::swap(this->_interpreter, temp._interpreter);
+            return *this;
+        }
+
         ~pTerm();
 
         std::string __repr__(void *interpreter = nullptr) const;
-- 
2.43.0


From 2a2be392bea6b8284159789c1e89b38bfc285a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:38 +0000
Subject: [PATCH 17/55] fix: assigning an iterator copies its position

The implicit assignment shared the position, which was then freed twice.
---
 Narsese/include/Term.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Narsese/include/Term.h b/Narsese/include/Term.h
index 4ff00f6..7aafbd1 100755
--- a/Narsese/include/Term.h
+++ b/Narsese/include/Term.h
@@ -222,9 +222,8 @@ namespace TERM
         using iterator_category = std::input_iterator_tag;
 
     public:
-        Iterator(const Iterator &iterator)
+        Iterator(const Iterator &iterator) : _is_commutative(iterator._is_commutative)
         {
-            *this = iterator;
             if (this->_is_commutative)
                 it_ = new auto(*(std::set<pTerm>::iterator *)(iterator.it_));
             else
@@ -233,6 +232,14 @@ namespace TERM
         Iterator(std::vector<pTerm>::const_iterator it) : it_((void *)new auto(it)), _is_commutative(false) {}
         Iterator(std::set<pTerm>::iterator it) : it_((void *)new auto(it)), _is_commutative(true) {}
 
+        Iterator &operator=(const Iterator &iterator)
+        {
+            Iterator temp(iterator);
+            std::swap(this->_is_commutative, temp._is_commutative);
+            std::swap(this->it_, temp.it_);
+            return *this;
+        }
+
         ~Iterator()
         {
             if (it_ == nullptr)
-- 
2.43.0


From 3ec8a48c60032787466522a49068230839756be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:38 +0000
Subject: [PATCH 18/55] fix: post-increment of an iterator returns the old
 position

---
 Narsese/include/Term.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Narsese/include/Term.h b/Narsese/include/Term.h
index 7aafbd1..5f9361b 100755
--- a/Narsese/include/Term.h
+++ b/Narsese/include/Term.h
@@ -268,9 +268,11 @@ namespace TERM
             return *this;
         }
 
-        Iterator &operator++(int)
+        Iterator operator++(int)
         {
-            return ++(*this);
+            Iterator old(*this);
+            ++(*this);
+            return old;
         }
 
         bool operator!=(const Iterator &other) const
-- 
2.43.0


From 9d79483429be88fb36e05235a3c9e4e7d80153f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 19/55] fix: give every stamp an evidential base

The default was assigned to the constructor's parameter, not to the member.
---
 Narsese/include/Sentence.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/include/Sentence.h b/Narsese/include/Sentence.h
index c8f6933..af58c0f 100755
--- a/Narsese/include/Sentence.h
+++ b/Narsese/include/Sentence.h
@@ -62,7 +62,7 @@ namespace SENTENCE
         Stamp(signed int t_occurrence, signed int t_creation, signed int t_put, pBase evidential_base, bool is_eternal = true) : t_occurrence(t_occurrence), t_creation(t_creation), t_put(t_put), evidential_base(evidential_base), is_eternal(is_eternal)
         {
             if (evidential_base == nullptr)
-                evidential_base = pBase(new Base());
+                this->evidential_base = pBase(new Base());
         }
 
         static pStamp create(bool is_eternal = false)
-- 
2.43.0


From b008b2650a4310d2d5d5bfae260e4686714772c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 20/55] fix: share the clock and the counter of input ids
 between translation units

Every source file had its own copies, so ids were handed out repeatedly.
---
 Global.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Global.h b/Global.h
index ec26c8a..26f84c2 100755
--- a/Global.h
+++ b/Global.h
@@ -3,8 +3,8 @@
 
 namespace GLOBAL
 {
-    static unsigned long time = 0;
-    static unsigned long _input_id = 0;
+    inline unsigned long time = 0;
+    inline unsigned long _input_id = 0;
 
     inline unsigned long get_input_id()
     {
-- 
2.43.0


From 1ba68cea48fc24f79ecbab9b2105885e757a7ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 21/55] fix: read :/:, :|: and :\: relative to the current time

Tenses are shown relative to the clock, but were read as if it stood at 0.
---
 Narsese/Parser/NarseseParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Narsese/Parser/NarseseParser.cpp b/Narsese/Parser/NarseseParser.cpp
index 22e8b84..0a64b0a 100644
--- a/Narsese/Parser/NarseseParser.cpp
+++ b/Narsese/Parser/NarseseParser.cpp
@@ -773,20 +773,20 @@ void *NARSESEPARSER::tense_time(Parser *self, const Args &args)
 void *NARSESEPARSER::tense_future(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new std::tuple(0, (new (signed int)(CONFIG::temporal_duration)));
+	ret = new std::tuple(0, (new (signed int)(GLOBAL::time + CONFIG::temporal_duration)));
 	return ret;
 }
 void *NARSESEPARSER::tense_present(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new std::tuple(0, (new (signed int)(0)));
+	ret = new std::tuple(0, (new (signed int)(GLOBAL::time)));
 
 	return ret;
 }
 void *NARSESEPARSER::tense_past(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new std::tuple(0, (new (signed int)(-CONFIG::temporal_duration)));
+	ret = new std::tuple(0, (new (signed int)(GLOBAL::time - CONFIG::temporal_duration)));
 	return ret;
 }
 void *NARSESEPARSER::truth(Parser *self, const Args &args)
-- 
2.43.0


From b5045ac0935d9dbe046cacb6cea01f443eaeb143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 22/55] fix: judgements and goals always have a truth,
 sentences a virtual destructor

A sentence created without a truth crashed the printer, and goals were
deleted as objects of a smaller class.
---
 Narsese/include/Sentence.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Narsese/include/Sentence.h b/Narsese/include/Sentence.h
index af58c0f..caa972a 100755
--- a/Narsese/include/Sentence.h
+++ b/Narsese/include/Sentence.h
@@ -128,8 +128,14 @@ namespace SENTENCE
         {
             if (stamp == nullptr)
                 stamp = pStamp(new Stamp(true));
+            if (truth == nullptr && punct == PUNCTUATION::Judgement)
+                truth = pTruth(new Truth(CONFIG::f, CONFIG::c_judgement, CONFIG::k));
+            else if (truth == nullptr && punct == PUNCTUATION::Goal)
+                truth = pTruth(new Truth(CONFIG::f, CONFIG::c_goal, CONFIG::k));
         }
 
+        virtual ~Sentence() = default;
+
         inline bool is_judgement() { return punct == PUNCTUATION::Judgement; }
         inline bool is_question() { return punct == PUNCTUATION::Question; }
         inline bool is_goal() { return punct == PUNCTUATION::Goal; }
-- 
2.43.0


From e87b5507a9ab0109f1cb89ed08ddd059eea5d801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 23/55] fix: extending an evidential base keeps its own ids

The copy shared the set that was cleared right afterwards.
---
 Narsese/include/Evidence.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/include/Evidence.h b/Narsese/include/Evidence.h
index b96dd73..7e49321 100755
--- a/Narsese/include/Evidence.h
+++ b/Narsese/include/Evidence.h
@@ -32,8 +32,8 @@ namespace EVIDENCE
 
         void extend(const Base &other)
         {
-            auto base1 = Base(*this);
-            auto &base2 = other;
+            auto base1 = Base(*this->_set);
+            auto base2 = Base(*other._set);
             this->_set->clear();
             Base::interleave(*this, base1, base2);
         }
-- 
2.43.0


From 4a065d90b4b613f6295bf580a3547e3111b0f593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 24/55] fix: the hash of an evidential base follows its ids

---
 Narsese/include/Evidence.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Narsese/include/Evidence.h b/Narsese/include/Evidence.h
index 7e49321..b8596de 100755
--- a/Narsese/include/Evidence.h
+++ b/Narsese/include/Evidence.h
@@ -44,6 +44,7 @@ namespace EVIDENCE
             size_t i = 0;
             auto it1 = base1._set->begin();
             auto it2 = base2._set->begin();
+            base._is_hashed = false;
             while (i < base_length)
             {
                 if (it2 != base2._set->end())
-- 
2.43.0


From 0c8af432d4a17bd683685362802de57767b3ede3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 25/55] fix: an interleaved evidential base respects the
 maximum length

---
 Narsese/include/Evidence.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/include/Evidence.h b/Narsese/include/Evidence.h
index b8596de..2f49402 100755
--- a/Narsese/include/Evidence.h
+++ b/Narsese/include/Evidence.h
@@ -53,7 +53,7 @@ namespace EVIDENCE
                     it2++;
                     i++;
                 }
-                if (it1 != base1._set->end())
+                if (i < base_length && it1 != base1._set->end())
                 {
                     base._set->insert(*it1);
                     it1++;
-- 
2.43.0


From fad5ac0c1101c8a20795c16c3aee2a3cbbcfafce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 26/55] fix: interleaving two evidential bases adds no id of
 its own

---
 Narsese/include/Evidence.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/include/Evidence.h b/Narsese/include/Evidence.h
index 2f49402..7de98b5 100755
--- a/Narsese/include/Evidence.h
+++ b/Narsese/include/Evidence.h
@@ -64,7 +64,7 @@ namespace EVIDENCE
 
         static auto interleave(const Base &base1, const Base &base2)
         {
-            auto base = pBase(new Base());
+            auto base = pBase(new Base(set<size_t>{}));
             Base::interleave(*base, base1, base2);
             return base;
         }
-- 
2.43.0


From 1a55414c4a62a3edeb08800a879582c1d174ea8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 27/55] fix: Connector.ExtensionalDifference of the Python
 module

---
 Narsese/src/Connector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/src/Connector.cpp b/Narsese/src/Connector.cpp
index 6ce8f9f..52a2d97 100755
--- a/Narsese/src/Connector.cpp
+++ b/Narsese/src/Connector.cpp
@@ -15,7 +15,7 @@ namespace CONNECTOR
             .value("SequentialEvents", CONNECTOR::Connector::SequentialEvents, "&/")
             .value("IntensionalIntersection", CONNECTOR::Connector::IntensionalIntersection, "|")
             .value("ExtensionalIntersection", CONNECTOR::Connector::ExtensionalIntersection, "&")
-            .value("ExtensionalDifference", CONNECTOR::Connector::ParallelEvents, "-")
+            .value("ExtensionalDifference", CONNECTOR::Connector::ExtensionalDifference, "-")
             .value("IntensionalDifference", CONNECTOR::Connector::IntensionalDifference, "~")
             .value("Negation", CONNECTOR::Connector::Negation, "--")
             .value("IntensionalSet", CONNECTOR::Connector::IntensionalSet, "[")
-- 
2.43.0


From 535d6961ca1d15ba340f777492fee4e999e5ed55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 28/55] fix: symmetrize and reverse return a copula

---
 Narsese/include/Copula.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/include/Copula.h b/Narsese/include/Copula.h
index f6bf5d3..e32dfcc 100755
--- a/Narsese/include/Copula.h
+++ b/Narsese/include/Copula.h
@@ -48,8 +48,8 @@ namespace COPULA
     inline bool is_commutative(Copula copula) { return _commutative[copula]; }
     inline bool is_higher_order(Copula copula) { return _higher_order[copula]; }
     inline bool is_temporal(Copula copula) { return _temporal[copula]; }
-    inline bool symmetrize(Copula copula) { return _symmetrize[copula]; }
-    inline bool reverse(Copula copula) { return _reverse[copula]; }
+    inline Copula symmetrize(Copula copula) { return _symmetrize[copula]; }
+    inline Copula reverse(Copula copula) { return _reverse[copula]; }
 
     void pybind_copula(py::module &m);
 
-- 
2.43.0


From e28a44ce5fcc59990840dceba1be64c2fffffe81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 29/55] fix: the hash of an interval follows its length

---
 Narsese/include/Interval.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Narsese/include/Interval.h b/Narsese/include/Interval.h
index 3dd0cc7..551af32 100755
--- a/Narsese/include/Interval.h
+++ b/Narsese/include/Interval.h
@@ -40,6 +40,7 @@ namespace INTERVAL
         Interval &operator+=(const Interval &other)
         {
             interval += other.interval;
+            this->hash_value = Hash{}(std::initializer_list<signed int>{TermType::INTERVAL, this->interval});
             return *this;
         }
     };
-- 
2.43.0


From 886b8fc614dd7dab4338bb25090a356448a653a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 30/55] fix: projection discounts the confidence

The integer division always gave 0.
---
 NAL/Functions/include/TemporalFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NAL/Functions/include/TemporalFunctions.h b/NAL/Functions/include/TemporalFunctions.h
index 86b2529..88543b4 100644
--- a/NAL/Functions/include/TemporalFunctions.h
+++ b/NAL/Functions/include/TemporalFunctions.h
@@ -11,7 +11,7 @@ namespace TEMPORAL_FUNCTIONS
     inline auto project(pTruth truth, int64_t t_source, int64_t t_current, int64_t t_target, size_t decay_duration = 1000)
     {
         auto d = (abs(t_source - t_current) + abs(t_target - t_current)) + decay_duration;
-        auto k_c = d > 0 ? abs(t_source - t_target) / d : 0;
+        auto k_c = d > 0 ? (double)abs(t_source - t_target) / d : 0.0;
         auto c_new = (1 - k_c) * truth->c;
         return Truth::create(truth->f, c_new, truth->k);
     }
-- 
2.43.0


From 4e8bd5361fa7dbf836e77c7ea95a16a6b6238210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 31/55] fix: confidence stays below 1 however much evidence
 there is

Rounded to 1, it stands for infinite evidence; the next revision gave NaN.
---
 NAL/Functions/include/UncertaintyMappingFunctions.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/NAL/Functions/include/UncertaintyMappingFunctions.h b/NAL/Functions/include/UncertaintyMappingFunctions.h
index b278bac..d26dcf2 100644
--- a/NAL/Functions/include/UncertaintyMappingFunctions.h
+++ b/NAL/Functions/include/UncertaintyMappingFunctions.h
@@ -2,6 +2,8 @@
 #define _UNCERTAINTY_MAPPING_FUNCTIONS_H
 
 #include "Narsese/include/Truth.h"
+#include <cmath>
+#include <tuple>
 namespace UNCERTAINTY_MAPPING_FUNCTIONS
 {
     using TRUTH::Truth;
@@ -10,7 +12,11 @@ namespace UNCERTAINTY_MAPPING_FUNCTIONS
     inline float fc_to_w(float f, float c, float k) { return k * c / (1 - c); }
     inline float fc_to_w_minus(float f, float c, float k) { return k * (1 - f) * c / (1 - c); }
     inline float w_to_f(float w_plus, float w) { return w > 1e-8 ? w_plus / w : 0.0; }
-    inline float w_to_c(float w, float k) { return w / (w + k); }
+    inline float w_to_c(float w, float k)
+    {
+        float c = w / (w + k);
+        return c < 1.0f ? c : std::nextafter(1.0f, 0.0f); // stays below 1, also if it is rounded
+    }
 
     // Truth truth_from_w(float w_plus, float w, float k=1.0);
     inline Truth truth_from_w(float w_plus, float w, float k = 1.0)
-- 
2.43.0


From 124ea5bd89822c96cccd90c154e34096d455a375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 32/55] fix: compounds without components can be built

---
 Narsese/src/Compound.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Narsese/src/Compound.cpp b/Narsese/src/Compound.cpp
index a99f6ff..64a0ece 100755
--- a/Narsese/src/Compound.cpp
+++ b/Narsese/src/Compound.cpp
@@ -170,6 +170,9 @@ std::tuple<Connector, pTerms> prepocess_terms(Compound &self, Connector connecto
             category.push_back(term);
         }
 
+        if (terms->size() == 0)
+            return {connector_parent, terms};
+
         /* Step 2. */
         std::vector<std::tuple<Connector, pTerms>> terms_norm;
         for (const auto &pair : categories)
-- 
2.43.0


From 2e9ee67dab7b52ed58235df2a84a0bc505273165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 33/55] fix: keep compounds that are not merged as components

A lone component was replaced by its own components, a component with one
component was dropped, and sets without common members became empty.
---
 Narsese/src/Compound.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Narsese/src/Compound.cpp b/Narsese/src/Compound.cpp
index 64a0ece..4335518 100755
--- a/Narsese/src/Compound.cpp
+++ b/Narsese/src/Compound.cpp
@@ -188,10 +188,11 @@ std::tuple<Connector, pTerms> prepocess_terms(Compound &self, Connector connecto
 
             /* Now, `connector` is not `None`. */
             auto terms_merged = _merge_compounds(connector_parent, connector, compounds);
-            if (terms_merged == nullptr)
+            if (terms_merged == nullptr || terms_merged->size() == 0)
             {
+                /* Each compound is a component as a whole. Also, there is no empty set, e.g., (&, {A}, {B}) remains as it is. */
                 for (auto &compound : compounds)
-                    terms_norm.push_back({connector, compound->terms});
+                    terms_norm.push_back({Connector::None, Terms::create(std::vector{compound}, true)});
                 continue;
             }
 
-- 
2.43.0


From 17107d192682474b8b24c7f03a643324713615d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 34/55] fix: intersections of sets are sets

(&, {A, B}, {B, C}) is {B}, as documented above, not (&, B).
---
 Narsese/src/Compound.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/src/Compound.cpp b/Narsese/src/Compound.cpp
index 4335518..3bdd5f9 100755
--- a/Narsese/src/Compound.cpp
+++ b/Narsese/src/Compound.cpp
@@ -255,8 +255,8 @@ std::tuple<Connector, pTerms> prepocess_terms(Compound &self, Connector connecto
                 if `connector_parent` is `|` and `connector` is `{`, the return `connector`;
                 if `connector_parent` is `&` and `connector` is `&`, it makes no difference returning either `connector` or `connector_parent`;
             */
-            if ((_connector == Connector::ExtensionalSet && connector_parent == Connector::IntensionalIntersection) ||
-                (_connector == Connector::IntensionalSet && connector_parent == Connector::ExtensionalIntersection))
+            if ((_connector == Connector::ExtensionalSet || _connector == Connector::IntensionalSet) &&
+                (connector_parent == Connector::IntensionalIntersection || connector_parent == Connector::ExtensionalIntersection))
             {
                 return {_connector, Terms::create(*_terms, true)};
             }
-- 
2.43.0


From f834d37609adcdd1eae167de882a8495895cc234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:02 +0000
Subject: [PATCH 35/55] fix: initialize the state of the parser

Among others, the pointer to the lexem was freed and the error delay was
read without ever being set.
---
 Narsese/Parser/Parser.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Narsese/Parser/Parser.cpp b/Narsese/Parser/Parser.cpp
index fcb41a8..9f21f90 100644
--- a/Narsese/Parser/Parser.cpp
+++ b/Narsese/Parser/Parser.cpp
@@ -6,8 +6,17 @@ using namespace PARSER;
 Parser::Parser()
 {
     this->eof = '\n';
+    this->stack = this->tos = NULL;
     this->stacksize = 0;
-    this->buf = NULL;
+    this->sym = this->old_sym = -1;
+    this->len = 0;
+    this->lexem = NULL;
+    this->buf = this->bufend = this->bufsize = NULL;
+    this->is_eof = false;
+    this->error_delay = 0;
+    this->error_count = 0;
+    this->line = this->column = 1;
+    this->ast = NULL;
     // const char *empty = "";
     // const char* start = "start";
     // auto len = sizeof(this->productions)/sizeof(this->productions[0]);
-- 
2.43.0


From e377bb5250b476d041e766b8c218cf8a5e3adca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:02 +0000
Subject: [PATCH 36/55] fix: a line with a syntax error does not affect the
 next one

The characters read ahead stayed in the buffer.
---
 Narsese/Parser/Parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Narsese/Parser/Parser.cpp b/Narsese/Parser/Parser.cpp
index 9f21f90..9ec2bcb 100644
--- a/Narsese/Parser/Parser.cpp
+++ b/Narsese/Parser/Parser.cpp
@@ -39,6 +39,10 @@ void *Parser::parse_string(std::string &input)
     char_fetcher.switch_string_mode();
     char_fetcher.fill(input);
 
+    /* drop what is left of the previous input, if that was not read to its end */
+    this->len = 0;
+    this->clear_input();
+    this->ast = NULL;
     this->parse();
 
     char_fetcher.clear();
-- 
2.43.0


From 78091ab60f830f155a3c442b0c925d3c92e49966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:02 +0000
Subject: [PATCH 37/55] fix: free the syntax tree after a syntax error

---
 Narsese/Parser/narsese.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index 24d113f..aa42b0b 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -948,6 +948,13 @@ int _parser::parse( void )
 	// Clean up parser control block
 	UNICC_CLEARIN( this );
 
+	if( this->act != UNICC_SUCCESS )
+	{
+		/* Parse error: drop the nodes that were collected so far */
+		for( ; this->tos >= this->stack; this->tos-- )
+			this->ast_free( this->tos->node );
+	}
+
 	free( this->stack );
 	this->stack = NULL;
 
-- 
2.43.0


From 70ddf8148807c6db6ea829f1858b7ab86a72a3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:02 +0000
Subject: [PATCH 38/55] fix: grow the parser's stack before it is full

The element after the top was written although it was not allocated, and
empty productions did not ask for space at all.
---
 Narsese/Parser/narsese.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index aa42b0b..88e39e7 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -178,7 +178,7 @@ bool _parser::alloc_stack( void )
 
 		this->stacksize = UNICC_MALLOCSTEP;
 	}
-	else if( ( this->tos - this->stack ) == this->stacksize )
+	else if( ( this->tos - this->stack ) + 1 >= this->stacksize )
 	{
 		size_t			size = ( this->tos - this->stack );
 		_tok*	ptr;
@@ -798,6 +798,9 @@ int _parser::parse( void )
 
 			this->get_go();
 
+			if( !this->alloc_stack() )
+				return (int)NULL;
+
 			this->tos++;
 			this->tos->node = NULL;
 
-- 
2.43.0


From 2de779b7afddb6671278d053bc34dadd32b94ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:02 +0000
Subject: [PATCH 39/55] fix: do not read past the end of the input buffer

---
 Narsese/Parser/narsese.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index 88e39e7..0eadff3 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -323,7 +323,7 @@ void _parser::clear_input( void )
 #endif
 
 			memmove( this->buf, this->buf + this->len,
-						( ( this->bufend - ( this->buf + this->len ) ) + 1 + 1 )
+						( ( this->bufend - ( this->buf + this->len ) ) + 1 )
 							* sizeof( UNICC_CHAR ) );
 			this->bufend = this->buf + ( this->bufend - ( this->buf + this->len ) );
 
-- 
2.43.0


From f4465a5b4b42b0ca1af665f35763175e7e6ae567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:02 +0000
Subject: [PATCH 40/55] fix: terminate the lexem of an error message

A line with a character that cannot be converted was reported with
whatever followed an empty allocation.
---
 Narsese/Parser/narsese.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index 0eadff3..5604948 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -23,6 +23,8 @@ UNICC_SCHAR* _parser::get_lexem( void )
 	size_t		size;
 
 	size = wcstombs( (char*)NULL, this->buf, 0 );
+	if( size == (size_t)-1 ) /* not representable */
+		size = 0;
 
 	free( this->lexem );
 
@@ -34,6 +36,7 @@ UNICC_SCHAR* _parser::get_lexem( void )
 	}
 
 	wcstombs( this->lexem, this->buf, size + 1 );
+	this->lexem[ size ] = 0;
 #endif
 
 #if UNICC_DEBUG	> 2
-- 
2.43.0


From bfed7adf33e56ebbd610a2d93edf5bc9fe955827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:02 +0000
Subject: [PATCH 41/55] fix: narsese.parse raises RuntimeError for a line it
 cannot parse

Returning a result with an exception set is a SystemError.
---
 Narsese/Parser/NarseseParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/Parser/NarseseParser.cpp b/Narsese/Parser/NarseseParser.cpp
index 0a64b0a..91216fb 100644
--- a/Narsese/Parser/NarseseParser.cpp
+++ b/Narsese/Parser/NarseseParser.cpp
@@ -1005,12 +1005,12 @@ void NARSESEPARSER::pybind_parse(py::module &m)
 			{
 				// std::cout << e.what() << std::endl;
 				PyErr_SetString(PyExc_RuntimeError, e.what());
-				return py::none();
+				throw py::error_already_set();
 			}
 			catch (...)
 			{
 				PyErr_SetString(PyExc_RuntimeError, "Unknown error occurred.");
-				return pybind11::none();
+				throw py::error_already_set();
 			}
 		},
 		py::arg("line"));
-- 
2.43.0


From b847d4767fbc4de1b6014fe0f3676173491328fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:02 +0000
Subject: [PATCH 42/55] fix: iterating over the components of a compound in
 Python keeps them alive

The iterator referred to the compound without owning it.
---
 Narsese/src/Term.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/src/Term.cpp b/Narsese/src/Term.cpp
index c19e2fc..fe5405b 100755
--- a/Narsese/src/Term.cpp
+++ b/Narsese/src/Term.cpp
@@ -113,11 +113,11 @@ namespace TERM
                     else if (self->is_statement())
                         return py::iter(py::cast(std::vector<pTerm>{self->subject, self->predicate}));
                     else if (self->is_compound())
-                        return py::make_iterator(self->terms->begin(), self->terms->end());
+                        return py::iter(py::cast(static_cast<std::vector<pTerm>>(*self->terms)));
                     else
                     {
                         PyErr_SetString(PyExc_TypeError, fmt::format("In file <{}> line <{}>: Invalid TermType", __FILE__, __LINE__).c_str());
-                        return py::none();
+                        throw py::error_already_set();
                     }
                 })
             .def_property_readonly(
-- 
2.43.0


From df52b0b962822054609a96c2f16dce060174e2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:02 +0000
Subject: [PATCH 43/55] fix: repr() of terms, sentences and tasks in Python

The default argument of the lambda is not known to pybind11.
---
 Narsese/src/Compound.cpp  | 2 +-
 Narsese/src/Sentence.cpp  | 2 +-
 Narsese/src/Statement.cpp | 2 +-
 Narsese/src/Task.cpp      | 2 +-
 Narsese/src/Term.cpp      | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Narsese/src/Compound.cpp b/Narsese/src/Compound.cpp
index 3bdd5f9..a1abf95 100755
--- a/Narsese/src/Compound.cpp
+++ b/Narsese/src/Compound.cpp
@@ -350,5 +350,5 @@ void COMPOUND::pybind_compound(py::module &m)
                 if (interpreter == nullptr)
                     interpreter = (void *)&INTERPRETER::interpreter;
                 return self.__repr__(interpreter);
-            });
+            }, py::arg("interpreter") = (void *)nullptr);
 }
diff --git a/Narsese/src/Sentence.cpp b/Narsese/src/Sentence.cpp
index 49b06d9..26cf6c3 100755
--- a/Narsese/src/Sentence.cpp
+++ b/Narsese/src/Sentence.cpp
@@ -40,6 +40,6 @@ namespace SENTENCE
                 if (interpreter == nullptr)
                     interpreter = (void *)&INTERPRETER::interpreter;
                 return self.__repr__(interpreter);
-            });
+            }, py::arg("interpreter") = (void *)nullptr);
     }
 }
\ No newline at end of file
diff --git a/Narsese/src/Statement.cpp b/Narsese/src/Statement.cpp
index 3f40542..ec5d3a3 100755
--- a/Narsese/src/Statement.cpp
+++ b/Narsese/src/Statement.cpp
@@ -25,6 +25,6 @@ namespace STATEMENT
                 if (interpreter == nullptr)
                     interpreter = (void *)&INTERPRETER::interpreter;
                 return self.__repr__(interpreter);
-            });
+            }, py::arg("interpreter") = (void *)nullptr);
     }
 }
diff --git a/Narsese/src/Task.cpp b/Narsese/src/Task.cpp
index 767b102..eb37d56 100755
--- a/Narsese/src/Task.cpp
+++ b/Narsese/src/Task.cpp
@@ -25,7 +25,7 @@ namespace TASK
                 if (interpreter == nullptr)
                     interpreter = (void *)&INTERPRETER::interpreter;
                 return self.__repr__(interpreter);
-            });
+            }, py::arg("interpreter") = (void *)nullptr);
     }
 
 }
diff --git a/Narsese/src/Term.cpp b/Narsese/src/Term.cpp
index fe5405b..08da78f 100755
--- a/Narsese/src/Term.cpp
+++ b/Narsese/src/Term.cpp
@@ -132,7 +132,7 @@ namespace TERM
                 if (interpreter == nullptr)
                     interpreter = (void *)&INTERPRETER::interpreter;
                 return self.__repr__(interpreter);
-            });
+            }, py::arg("interpreter") = (void *)nullptr);
     }
 
     void pybind_terms(py::module &m)
-- 
2.43.0


From 231b846471ef2d30e3372976f4fb6e2a04e6e919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:38 +0000
Subject: [PATCH 44/55] fix: reject numbers that cannot be represented

Integers beyond the range of int were converted all the same (undefined),
and other long numerals threw std::out_of_range halfway through the
transformation, which leaked what had been built.
---
 Narsese/Parser/NarseseParser.cpp | 25 ++++++++++++++++++-------
 Narsese/Parser/NarseseParser.h   |  5 +++--
 Narsese/Parser/Parser.h          |  3 +++
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/Narsese/Parser/NarseseParser.cpp b/Narsese/Parser/NarseseParser.cpp
index 91216fb..7072411 100644
--- a/Narsese/Parser/NarseseParser.cpp
+++ b/Narsese/Parser/NarseseParser.cpp
@@ -15,6 +15,8 @@
 #include "Narsese/include/Narsese.h"
 #include <functional> // std::reference_wrapper
 #include <iostream>
+#include <cstdlib>
+#include <limits>
 #include <memory>
 // #include <list>
 #include <tuple>
@@ -869,43 +871,52 @@ void *NARSESEPARSER::string(Parser *self, const Args &args)
 void *NARSESEPARSER::quality(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new double(std::stod((char *)args[0]));
+	ret = new double(std::strtod((char *)args[0], nullptr));
 	return ret;
 }
 void *NARSESEPARSER::durability(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new double(std::stod((char *)args[0]));
+	ret = new double(std::strtod((char *)args[0], nullptr));
 	return ret;
 }
 void *NARSESEPARSER::priority(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new double(std::stod((char *)args[0]));
+	ret = new double(std::strtod((char *)args[0], nullptr));
 	return ret;
 }
 void *NARSESEPARSER::k_evidence(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new double(std::stod((char *)args[0])); // e.g., "1"
+	double k = std::strtod((char *)args[0], nullptr); // e.g., "1"
+	if (k > std::numeric_limits<float>::max())
+		self->is_out_of_range = true;
+	ret = new double(k);
 	return ret;
 }
 void *NARSESEPARSER::confidence(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new double(std::stod((char *)args[0])); // e.g., "0.90"
+	ret = new double(std::strtod((char *)args[0], nullptr)); // e.g., "0.90"
 	return ret;
 }
 void *NARSESEPARSER::frequency(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new double(std::stod((char *)args[0])); // e.g., "0.90"
+	ret = new double(std::strtod((char *)args[0], nullptr)); // e.g., "0.90"
 	return ret;
 }
 void *NARSESEPARSER::integer(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new double(std::stod((char *)args[0])); // e.g., 123
+	double integer = std::strtod((char *)args[0], nullptr); // e.g., 123
+	if (integer < std::numeric_limits<signed int>::min() || integer > std::numeric_limits<signed int>::max())
+	{
+		self->is_out_of_range = true;
+		integer = 0;
+	}
+	ret = new double(integer);
 	return ret;
 }
 
diff --git a/Narsese/Parser/NarseseParser.h b/Narsese/Parser/NarseseParser.h
index 6eac2d5..474fb93 100644
--- a/Narsese/Parser/NarseseParser.h
+++ b/Narsese/Parser/NarseseParser.h
@@ -18,8 +18,9 @@ namespace NARSESEPARSER
 			names_ivar.clear();
 			names_dvar.clear();
 			names_qvar.clear();
-			TASK::Task *task = ((TASK::Task *)this->parse_string(input));
-			return TASK::pTask(task);
+			is_out_of_range = false;
+			TASK::pTask task((TASK::Task *)this->parse_string(input));
+			return is_out_of_range ? TASK::pTask() : task;
 		}
 		TASK::pTask parse_task(const char *input)
 		{
diff --git a/Narsese/Parser/Parser.h b/Narsese/Parser/Parser.h
index 5ba51b6..09c4bf0 100644
--- a/Narsese/Parser/Parser.h
+++ b/Narsese/Parser/Parser.h
@@ -32,6 +32,9 @@ namespace PARSER
         std::unordered_map<std::string, long> names_dvar;
         std::unordered_map<std::string, long> names_qvar;
 
+        /* whether the input has a number which cannot be represented */
+        bool is_out_of_range = false;
+
         Parser();
         ~Parser()
         {
-- 
2.43.0


From 7b50a33bbc1d80131092f0ee86ac3a60eb8d4add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:38 +0000
Subject: [PATCH 45/55] fix: confidence and durability stay within (0, 1) when
 they are rounded

0.99999999 became a confidence of 1, i.e., infinite evidence.
---
 Narsese/Parser/NarseseParser.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Narsese/Parser/NarseseParser.cpp b/Narsese/Parser/NarseseParser.cpp
index 7072411..47ec5c5 100644
--- a/Narsese/Parser/NarseseParser.cpp
+++ b/Narsese/Parser/NarseseParser.cpp
@@ -15,6 +15,8 @@
 #include "Narsese/include/Narsese.h"
 #include <functional> // std::reference_wrapper
 #include <iostream>
+#include <algorithm>
+#include <cmath>
 #include <cstdlib>
 #include <limits>
 #include <memory>
@@ -66,6 +68,12 @@ inline _T get(void *obj)
 	return ret;
 }
 
+/* The value which is closest to `x`, but within (0, 1) also in single precision. */
+inline double open_interval(double x)
+{
+	return std::min(std::max((float)x, std::nextafter(0.0f, 1.0f)), std::nextafter(1.0f, 0.0f));
+}
+
 /*definitions*/
 void *NARSESEPARSER::task(Parser *self, const Args &args)
 {
@@ -877,7 +885,7 @@ void *NARSESEPARSER::quality(Parser *self, const Args &args)
 void *NARSESEPARSER::durability(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new double(std::strtod((char *)args[0], nullptr));
+	ret = new double(open_interval(std::strtod((char *)args[0], nullptr)));
 	return ret;
 }
 void *NARSESEPARSER::priority(Parser *self, const Args &args)
@@ -898,7 +906,7 @@ void *NARSESEPARSER::k_evidence(Parser *self, const Args &args)
 void *NARSESEPARSER::confidence(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new double(std::strtod((char *)args[0], nullptr)); // e.g., "0.90"
+	ret = new double(open_interval(std::strtod((char *)args[0], nullptr))); // e.g., "0.90"
 	return ret;
 }
 void *NARSESEPARSER::frequency(Parser *self, const Args &args)
-- 
2.43.0


From 53328047b87f905c4c5344eaace49a7f8550f305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:38 +0000
Subject: [PATCH 46/55] fix: do not display confidence and durability as 0 or 1

Rounded to the displayed precision, they could not be read back.
---
 Interpreter/src/Interpreter.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index f632a6e..c65a60c 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -224,6 +224,12 @@ string Interpreter::interpret(Term &term, bool colored)
     return str_ret;
 }
 
+/* Keep a number which lies strictly between 0 and 1 there when it is displayed with the given precision. */
+static float open_interval(float x, float precision)
+{
+    return std::min(std::max(x, precision), 1 - precision);
+}
+
 string Interpreter::interpret(Task &task, bool colored)
 {
     auto &budget = *task.budget;
@@ -235,6 +241,8 @@ string Interpreter::interpret(Task &task, bool colored)
     d = std::round((d >= 0 ? (d <= 1 ? d : 1) : 0) * 1000) / 1000;
     q = std::round((q >= 0 ? (q <= 1 ? q : 1) : 0) * 1000) / 1000;
 
+    d = open_interval(d, 0.01f);
+
     auto color_priority = fmt::bg(fmt::rgb(std::min(255, int(255 * p / 2 + 10)), 10, 10));
     auto color_durability = fmt::bg(fmt::rgb(10, std::min(255, int(255 * d / 2 + 10)), 10));
     auto color_quality = fmt::bg(fmt::rgb(10, 10, std::min(255, int(255 * q / 1.5 + 10))));
@@ -267,12 +275,12 @@ string Interpreter::interpret(Sentence &sentence, bool colored)
         if (sentence.is_judgement())
         {
             const auto &truth = *sentence.truth;
-            str_truth = fmt::format("{0}{1}{3}{2}{0}", fmt::format(color_percent, "%"), fmt::format(color_number, "{:.3f}", truth.f), fmt::format(color_number, "{:.3f}", truth.c), fmt::format(color_percent, ";"));
+            str_truth = fmt::format("{0}{1}{3}{2}{0}", fmt::format(color_percent, "%"), fmt::format(color_number, "{:.3f}", truth.f), fmt::format(color_number, "{:.3f}", open_interval(truth.c, 0.001f)), fmt::format(color_percent, ";"));
         }
         else if (sentence.is_goal())
         {
             auto &truth = *sentence.truth;
-            str_truth = fmt::format("{0}{1}{3}{2}{0}", fmt::format(color_percent, "%"), fmt::format(color_number, "{:.3f}", truth.f), fmt::format(color_number, "{:.3f}", truth.c), fmt::format(color_percent, ";"));
+            str_truth = fmt::format("{0}{1}{3}{2}{0}", fmt::format(color_percent, "%"), fmt::format(color_number, "{:.3f}", truth.f), fmt::format(color_number, "{:.3f}", open_interval(truth.c, 0.001f)), fmt::format(color_percent, ";"));
         }
         str_punct = fmt::format(color_punct, SENTENCE::PUNCTUATION::Repr[(int)(sentence.punct)]);
         str_stamp = sentence.stamp->is_eternal ? "" : fmt::format(color_tense, "{} ", TENSE::Repr[sentence.stamp->tense()]);
@@ -284,12 +292,12 @@ string Interpreter::interpret(Sentence &sentence, bool colored)
         if (sentence.is_judgement())
         {
             auto &truth = *sentence.truth;
-            str_truth = fmt::format("%{:.3f};{:.3f}%", truth.f, truth.c);
+            str_truth = fmt::format("%{:.3f};{:.3f}%", truth.f, open_interval(truth.c, 0.001f));
         }
         else if (sentence.is_goal())
         {
             auto &truth = *sentence.truth;
-            str_truth = fmt::format("%{:.3f};{:.3f}%", truth.f, truth.c);
+            str_truth = fmt::format("%{:.3f};{:.3f}%", truth.f, open_interval(truth.c, 0.001f));
         }
         str_punct = SENTENCE::PUNCTUATION::Repr[(int)(sentence.punct)];
         str_stamp = sentence.stamp->is_eternal ? "" : fmt::format("{} ", TENSE::Repr[sentence.stamp->tense()]);
-- 
2.43.0


From b86c1460670ad516fbecedb56309fac335dd3b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:50 +0000
Subject: [PATCH 47/55] fix: find the actions of the parser by name, not by the
 address of a literal

---
 Narsese/Parser/Parser.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Narsese/Parser/Parser.h b/Narsese/Parser/Parser.h
index 09c4bf0..6b852a1 100644
--- a/Narsese/Parser/Parser.h
+++ b/Narsese/Parser/Parser.h
@@ -3,6 +3,7 @@
 
 #include <iomanip>
 #include <string>
+#include <string_view>
 // #include "Narsese/include/Term.h"
 // #include "Narsese/include/Copula.h"
 // #include "Narsese/include/Statement.h"
@@ -25,7 +26,7 @@ namespace PARSER
     {
     public:
         /* function mappings from name to pointer */
-        std::unordered_map<const char *, long> _map;
+        std::unordered_map<std::string_view, long> _map;
 
         /* variable mappings from name to index */
         std::unordered_map<std::string, long> names_ivar;
-- 
2.43.0


From 222b6cecfca819421c7d88febd3087089b5acd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:44 +0000
Subject: [PATCH 48/55] fix: compare nested terms in polynomial time

---
 Narsese/include/Term.inl | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/Narsese/include/Term.inl b/Narsese/include/Term.inl
index 2ee96dd..81f8641 100644
--- a/Narsese/include/Term.inl
+++ b/Narsese/include/Term.inl
@@ -149,14 +149,10 @@ namespace TERM
             auto &term1 = *this;
             auto &term2 = other;
 
-            if (*(term1.subject) < *(term2.subject))
-                return true;
-            if (*(term2.subject) < *(term1.subject))
-                return false;
-            if (*(term1.predicate) < *(term2.predicate))
-                return true;
-            if (*(term2.predicate) < *(term1.predicate))
-                return false;
+            if (!(*(term1.subject) == *(term2.subject)))
+                return *(term1.subject) < *(term2.subject);
+            if (!(*(term1.predicate) == *(term2.predicate)))
+                return *(term1.predicate) < *(term2.predicate);
             return term1.copula < term2.copula;
         }
         else if (this->is_compound())
@@ -171,10 +167,8 @@ namespace TERM
             {
                 auto &term1 = **it1;
                 auto &term2 = **it2;
-                if ((term1 < term2))
-                    return true;
-                if ((term2 < term1))
-                    return false;
+                if (!(term1 == term2))
+                    return term1 < term2;
             }
             return false;
             // throw std::logic_error("TODO");
-- 
2.43.0


From 7206ab34ee8b5ac4456d874f2176e26074ea21a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:24 +0000
Subject: [PATCH 49/55] fix: a tab is a blank, not a part of a name

---
 Narsese/Parser/narsese.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index 5604948..debb6c9 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -365,6 +365,8 @@ void _parser::lex( void )
 #endif
 
 	next = this->get_input( len );
+	if( next == '\t' )
+		next = ' '; /* the tables take a tab for a part of a name */
 #if UNICC_DEBUG	> 1
 fprintf( stderr, "%s: lex: next = %d\n", UNICC_PARSER, next );
 #endif
@@ -430,6 +432,8 @@ fprintf( stderr, "%s: lex: new accepting symbol this->sym = %d greedy = %d\n",
 				}
 
 				next = this->get_input( ++len );
+				if( next == '\t' )
+					next = ' ';
 				break;
 			}
 
-- 
2.43.0


From bb8324b7bd72fab0ee3cc2b0ec5c2a6688cb4ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:42 +0000
Subject: [PATCH 50/55] fix: induction and comparison keep the evidential
 horizon of their premises

---
 NAL/Functions/include/TruthFunctions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NAL/Functions/include/TruthFunctions.h b/NAL/Functions/include/TruthFunctions.h
index 41fb2b0..9ec5629 100644
--- a/NAL/Functions/include/TruthFunctions.h
+++ b/NAL/Functions/include/TruthFunctions.h
@@ -48,7 +48,7 @@ namespace TRUTH_FUNCTIONS
 
     inline auto truth_induction(pTruth truth1, pTruth truth2)
     {
-        auto truth = Truth::create();
+        auto truth = Truth::create(truth1->k);
         auto w_p = And(truth1->f, truth2->f, truth1->c, truth2->c);
         auto w = And(truth2->f, truth1->c, truth2->c);
         truth->set_w(w_p, w);
@@ -57,7 +57,7 @@ namespace TRUTH_FUNCTIONS
 
     inline auto truth_comparison(pTruth truth1, pTruth truth2)
     {
-        auto truth = Truth::create();
+        auto truth = Truth::create(truth1->k);
         auto w_p = And(truth1->f, truth2->f, truth1->c, truth2->c);
         auto w = And(Or(truth1->f, truth2->f), truth1->c, truth2->c);
         truth->set_w(w_p, w);
-- 
2.43.0


From 8540d46d457f2fe15a725a94303ca252c281e872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:55 +0000
Subject: [PATCH 51/55] fix: Budget.quality_from_truth(None) raises TypeError
 instead of crashing

---
 Narsese/src/Budget.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/src/Budget.cpp b/Narsese/src/Budget.cpp
index 2913b3a..bf4d4e0 100755
--- a/Narsese/src/Budget.cpp
+++ b/Narsese/src/Budget.cpp
@@ -13,7 +13,7 @@ namespace BUDGET
             .def_readwrite("p", &Budget::priority)
             .def_readwrite("d", &Budget::durability)
             .def_readwrite("q", &Budget::quality)
-            .def_static("quality_from_truth", [](TRUTH::pTruth t) { return Budget::quality_from_truth(*t); })
+            .def_static("quality_from_truth", [](const TRUTH::Truth &t) { return Budget::quality_from_truth(t); })
             .def("__repr__", [](Budget& self)
                  { return fmt::format("<Budget: ${:.2f};{:.2f};{:.2f}$>", self.priority, self.durability, self.quality); });
     }
-- 
2.43.0


From a4bd32b7b40a0a54079c98711ec9c07e86a12089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:43 +0000
Subject: [PATCH 52/55] fix: connecting variable tables with positions adds
 each of the son's once

---
 utils/IndexVar.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/utils/IndexVar.cpp b/utils/IndexVar.cpp
index c9f7293..c6861c4 100755
--- a/utils/IndexVar.cpp
+++ b/utils/IndexVar.cpp
@@ -73,7 +73,6 @@ void IndexVar::connect(pIndexVar father, pIndexVar son, bool generate_pos)
         return;
 
     int bias_pos = father->successors.size() - 1;
-    auto &indices = son->indices;
     std::vector<std::vector<int>> positions;
     for (const auto &pos : son->positions)
     {
@@ -81,9 +80,7 @@ void IndexVar::connect(pIndexVar father, pIndexVar son, bool generate_pos)
         position.insert(position.end(), pos.begin(), pos.end());
         positions.push_back(position);
     }
-    indices.insert(indices.end(), son->indices.begin(), son->indices.end());
-    positions.insert(positions.end(), son->positions.begin(), son->positions.end());
-    father->indices.insert(father->indices.end(), indices.begin(), indices.end());
+    father->indices.insert(father->indices.end(), son->indices.begin(), son->indices.end());
     father->positions.insert(father->positions.end(), positions.begin(), positions.end());
 }
 
-- 
2.43.0


From f3e8f3b96588a1b8aade42e69afdbf64c339ed47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:43 +0000
Subject: [PATCH 53/55] fix: building a variable table anew renews its
 normalised numbers and its hash

---
 utils/IndexVar.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/IndexVar.cpp b/utils/IndexVar.cpp
index c6861c4..8937b29 100755
--- a/utils/IndexVar.cpp
+++ b/utils/IndexVar.cpp
@@ -111,6 +111,8 @@ void IndexVar::build(bool rebuild)
     }
 
     this->_is_built = true;
+    this->_is_hashed = false;
+    this->_indices_normalized = nullptr;
     this->_hash_value = hash(*this);
 }
 
-- 
2.43.0


From 98b062dd021024e5eecd4709a8a8b9fa1f20a264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:17 +0000
Subject: [PATCH 54/55] fix: do not read past the end of the input when its
 lexem is taken

---
 Narsese/Parser/narsese.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index debb6c9..e9119a8 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -8,6 +8,7 @@
 #include <stdio.h>
 #include <string.h>
 #include <locale.h>
+#include <wchar.h>
 #else
 
 #endif
@@ -20,11 +21,8 @@ UNICC_SCHAR* _parser::get_lexem( void )
 #if UNICC_WCHAR || !UNICC_UTF8
 	this->lexem = this->buf;
 #else
-	size_t		size;
-
-	size = wcstombs( (char*)NULL, this->buf, 0 );
-	if( size == (size_t)-1 ) /* not representable */
-		size = 0;
+	/* every element of the buffer is one byte of the input */
+	size_t		size	= wcsnlen( this->buf, this->bufend - this->buf );
 
 	free( this->lexem );
 
@@ -35,7 +33,8 @@ UNICC_SCHAR* _parser::get_lexem( void )
 		return NULL;
 	}
 
-	wcstombs( this->lexem, this->buf, size + 1 );
+	for( size_t i = 0; i < size; i++ )
+		this->lexem[ i ] = (UNICC_SCHAR)this->buf[ i ];
 	this->lexem[ size ] = 0;
 #endif
 
-- 
2.43.0


From d90726a5b87f0408f3f993d3f47fc13cf7ae68fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:17 +0000
Subject: [PATCH 55/55] fix: characters beyond ASCII can be a part of a name,
 as in the grammar

---
 Narsese/Parser/narsese.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/Parser/narsese.h b/Narsese/Parser/narsese.h
index eb06ecf..5896a02 100644
--- a/Narsese/Parser/narsese.h
+++ b/Narsese/Parser/narsese.h
@@ -206,7 +206,7 @@ public:
 		{
 			return EOF;
 		}
-		auto ch = *(buffer.c_str() + pointer);
+		auto ch = (unsigned char)*(buffer.c_str() + pointer); // not negative, also if it is a part of a longer character
 		pointer ++;
 		return ch;
 	}
-- 
2.43.0

