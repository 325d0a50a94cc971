From 5f43884e4c3d44a33033784f893c2803d8e25147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:28 +0000
Subject: [PATCH 01/42] fix: connect each variable index with the sub-index of
 its own kind

---
 Narsese/include/Term.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/include/Term.inl b/Narsese/include/Term.inl
index 0660714..244fb92 100644
--- a/Narsese/include/Term.inl
+++ b/Narsese/include/Term.inl
@@ -21,7 +21,7 @@ namespace TERM
             auto it = indexvars2.begin();
             for (const auto indexvar1 : variables)
             {
-                auto indexvar2 = *it;
+                auto indexvar2 = *it++;
                 IndexVar::connect(indexvar1, indexvar2, false);
             }
         }
@@ -35,7 +35,7 @@ namespace TERM
             auto it = indexvars2.begin();
             for (const auto indexvar1 : variables)
             {
-                auto indexvar2 = *it;
+                auto indexvar2 = *it++;
                 IndexVar::connect(indexvar1, indexvar2, false);
             }
         }
-- 
2.43.0


From 772020921a38972c4fa6a821c3e7c992134252e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:28 +0000
Subject: [PATCH 02/42] fix: compare dependent and query variables by their own
 index in Term::operator==

---
 Narsese/include/Term.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/include/Term.inl b/Narsese/include/Term.inl
index 244fb92..7dd0af1 100644
--- a/Narsese/include/Term.inl
+++ b/Narsese/include/Term.inl
@@ -69,9 +69,9 @@ namespace TERM
             if (this->is_var || other.is_var)
             {
                 if (this->is_qvar && other.is_qvar)
-                    return *(this->_vars_independent->indices[0]) == *(other._vars_query->indices[0]);
+                    return *(this->_vars_query->indices[0]) == *(other._vars_query->indices[0]);
                 else if (this->is_dvar && other.is_dvar)
-                    return *(this->_vars_independent->indices[0]) == *(other._vars_dependent->indices[0]);
+                    return *(this->_vars_dependent->indices[0]) == *(other._vars_dependent->indices[0]);
                 else if (this->is_ivar && other.is_ivar)
                     return *(this->_vars_independent->indices[0]) == *(other._vars_independent->indices[0]);
             }
-- 
2.43.0


From 1c6501c0ada099f69f59369875c4736dda660fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:20 +0000
Subject: [PATCH 03/42] fix: make Term::operator< a strict weak order that
 agrees with operator==

---
 Narsese/include/Term.h   |  2 ++
 Narsese/include/Term.inl | 62 +++++++++++++++++++++++-----------------
 2 files changed, 38 insertions(+), 26 deletions(-)

diff --git a/Narsese/include/Term.h b/Narsese/include/Term.h
index 336ee18..525ab70 100755
--- a/Narsese/include/Term.h
+++ b/Narsese/include/Term.h
@@ -160,6 +160,8 @@ namespace TERM
         bool operator<(Term &other);
 
     protected:
+        int _compare(Term &other);
+
         template <typename _Container>
         void _refresh_var_status(const _Container &terms)
         {
diff --git a/Narsese/include/Term.inl b/Narsese/include/Term.inl
index 7dd0af1..81ec9a3 100644
--- a/Narsese/include/Term.inl
+++ b/Narsese/include/Term.inl
@@ -118,65 +118,75 @@ namespace TERM
         This function is used to compare two terms, especially those with variables.
         When computing intersection, union, and difference of two (ordered) `set`s of terms, this function should be used for comparison-sorting.
         */
+        return this->_compare(other) < 0;
+    }
+
+    inline int Term::_compare(Term &other)
+    {
+        /*
+        Three-way comparison: negative, zero or positive if this term is before, equivalent to or after the other.
+        Terms with different hash values are ordered by hash; otherwise the structure decides, so that the order is a strict weak order which agrees with `operator==`.
+        */
+        auto order_of = [](auto a, auto b) { return a < b ? -1 : (b < a ? 1 : 0); };
+
+        if (this == &other)
+            return 0;
+
         if (hash(*this) != hash(other))
-            return hash(*this) < hash(other);
+            return order_of(hash(*this), hash(other));
 
-        if (!this->has_var && !other.has_var)
-            return hash(*this) < hash(other);
-        else if (!this->has_var && other.has_var)
-            return false;
+        if (!this->has_var && other.has_var)
+            return 1;
         else if (this->has_var && !other.has_var)
-            return true;
+            return -1;
 
         if (this->type != other.type)
-            return this->type < other.type;
+            return order_of(this->type, other.type);
 
         if (this->is_atom())
         {
             if (this->is_var || other.is_var)
             {
                 if (this->is_qvar && other.is_qvar)
-                    return *(this->_vars_query->indices[0]) < *(other._vars_query->indices[0]);
+                    return order_of(*(this->_vars_query->indices[0]), *(other._vars_query->indices[0]));
                 else if (this->is_dvar && other.is_dvar)
-                    return *(this->_vars_dependent->indices[0]) < *(other._vars_dependent->indices[0]);
+                    return order_of(*(this->_vars_dependent->indices[0]), *(other._vars_dependent->indices[0]));
                 else if (this->is_ivar && other.is_ivar)
-                    return *(this->_vars_independent->indices[0]) < *(other._vars_independent->indices[0]);
+                    return order_of(*(this->_vars_independent->indices[0]), *(other._vars_independent->indices[0]));
             }
-            return hash(*this) < hash(other);
+            return 0;
         }
         else if (this->is_statement())
         {
             auto &term1 = *this;
             auto &term2 = other;
 
-            if (*(term1.subject) < *(term2.subject))
-                return true;
-            if (*(term1.predicate) < *(term2.predicate))
-                return true;
-            if (term1.copula < term2.copula)
-                return true;
-            return false;
+            if (int order = (*(term1.subject))._compare(*(term2.subject)))
+                return order;
+            if (int order = (*(term1.predicate))._compare(*(term2.predicate)))
+                return order;
+            if (term1.copula != term2.copula)
+                return order_of(term1.copula, term2.copula);
+            return 0;
         }
         else if (this->is_compound())
         {
             auto &term1 = *this;
             auto &term2 = other;
             if (term1.terms->size() != term2.terms->size())
-                return term1.terms->size() < term2.terms->size();
+                return order_of(term1.terms->size(), term2.terms->size());
             if (term1.connector != term2.connector)
-                return term1.connector < term2.connector;
+                return order_of(term1.connector, term2.connector);
             for (auto it1 = term1.terms->begin(), it2 = term2.terms->begin(); it1 != term1.terms->end() && it2 != term2.terms->end(); it1++, it2++)
             {
-                auto &term1 = **it1;
-                auto &term2 = **it2;
-                if ((term1 < term2))
-                    return true;
+                if (int order = (**it1)._compare(**it2))
+                    return order;
             }
-            return false;
+            return 0;
             // throw std::logic_error("TODO");
             // return false;
         }
-        return false;
+        return 0;
     }
 
     inline pTerm Term::clone(pTerm term)
-- 
2.43.0


From 02c99b4e79ac10c90ce59d54b808a27c434d0fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:43 +0000
Subject: [PATCH 04/42] fix: look up an operation under its own name, not under
 the plain word

---
 Narsese/Parser/NarseseParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/Parser/NarseseParser.cpp b/Narsese/Parser/NarseseParser.cpp
index a90e80c..22e8b84 100644
--- a/Narsese/Parser/NarseseParser.cpp
+++ b/Narsese/Parser/NarseseParser.cpp
@@ -458,7 +458,7 @@ void *NARSESEPARSER::operation(Parser *self, const Args &args)
 	auto &str = *((std::string *)args[0]);
 	auto str_op = "^" + str;
 	pTerm *term;
-	if (INTERPRETER::interpreter.check_by_name(str) > 0)
+	if (INTERPRETER::interpreter.check_by_name(str_op) > 0)
 	{
 		auto key = INTERPRETER::interpreter.get_by_name(str_op);
 		term = (pTerm *)INTERPRETER::interpreter.get_object(key);
-- 
2.43.0


From 172688b2ca84165296db2137cf5fb63910580b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:12 +0000
Subject: [PATCH 05/42] fix: only an inheritance from a product to an operation
 name is an operation statement

---
 Narsese/include/Statement.inl | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/Narsese/include/Statement.inl b/Narsese/include/Statement.inl
index f559a38..c3ea33b 100644
--- a/Narsese/include/Statement.inl
+++ b/Narsese/include/Statement.inl
@@ -23,9 +23,7 @@ namespace STATEMENT
         // components = unordered_set<Term*>{&subject, &predicate};
 
         this->is_higher_order = COPULA::is_higher_order(copula);
-        this->is_operation = _predicate->is_operation;
-
-        if (this->predicate->is_atom() && this->predicate->is_operation && this->subject->is_compound() && this->subject->connector == CONNECTOR::PRODUCT)
+        if (this->copula == Copula::Inheritance && this->predicate->is_atom() && this->predicate->is_operation && this->subject->is_compound() && this->subject->connector == CONNECTOR::PRODUCT)
             this->is_operation = true;
 
         // is_operation = predicate.is_operation;
-- 
2.43.0


From bdfcfc51c3f97974bc32e7f57a8bd5a1fc07e968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:12 +0000
Subject: [PATCH 06/42] fix: print an operation without arguments as (^op)

---
 Interpreter/src/Interpreter.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index 3c44eba..00805a4 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -142,13 +142,17 @@ string Interpreter::interpret(Term &term, bool colored)
             auto &cmpd = (Compound &)*stat.subject;
             if (colored)
             {
-                ss << fmt::format(color_parenthesis, "(") << str_op << fmt::format(color_seperator, ", ");
+                ss << fmt::format(color_parenthesis, "(") << str_op;
+                if (cmpd.terms->size() > 0)
+                    ss << fmt::format(color_seperator, ", ");
                 append_strs(ss, cmpd.components());
                 ss << fmt::format(color_parenthesis, ")");
             }
             else
             {
-                ss << "(" << str_op << ", ";
+                ss << "(" << str_op;
+                if (cmpd.terms->size() > 0)
+                    ss << ", ";
                 append_strs(ss, cmpd.components());
                 ss << ")";
             }
-- 
2.43.0


From 617afb751231a76500093e8452e0d6c4ed95ba2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:16 +0000
Subject: [PATCH 07/42] fix: keep components built with another connector
 whole, and merge intersected sets into a set

---
 Narsese/src/Compound.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Narsese/src/Compound.cpp b/Narsese/src/Compound.cpp
index a99f6ff..575a418 100755
--- a/Narsese/src/Compound.cpp
+++ b/Narsese/src/Compound.cpp
@@ -185,10 +185,11 @@ std::tuple<Connector, pTerms> prepocess_terms(Compound &self, Connector connecto
 
             /* Now, `connector` is not `None`. */
             auto terms_merged = _merge_compounds(connector_parent, connector, compounds);
-            if (terms_merged == nullptr)
+            if (terms_merged == nullptr || terms_merged->size() == 0)
             {
+                /* These components are not merged, so each of them is kept as a whole. */
                 for (auto &compound : compounds)
-                    terms_norm.push_back({connector, compound->terms});
+                    terms_norm.push_back({Connector::None, Terms::create(std::vector{compound}, true)});
                 continue;
             }
 
@@ -251,8 +252,8 @@ std::tuple<Connector, pTerms> prepocess_terms(Compound &self, Connector connecto
                 if `connector_parent` is `|` and `connector` is `{`, the return `connector`;
                 if `connector_parent` is `&` and `connector` is `&`, it makes no difference returning either `connector` or `connector_parent`;
             */
-            if ((_connector == Connector::ExtensionalSet && connector_parent == Connector::IntensionalIntersection) ||
-                (_connector == Connector::IntensionalSet && connector_parent == Connector::ExtensionalIntersection))
+            if ((_connector == Connector::ExtensionalSet || _connector == Connector::IntensionalSet) &&
+                (connector_parent == Connector::ExtensionalIntersection || connector_parent == Connector::IntensionalIntersection))
             {
                 return {_connector, Terms::create(*_terms, true)};
             }
-- 
2.43.0


From 80244ffc23319b0ff9963dfd739be8a77bfa8853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:16 +0000
Subject: [PATCH 08/42] fix: do not step before the beginning of an empty
 component list when printing

---
 Interpreter/src/Interpreter.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index 00805a4..1433dfc 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -165,7 +165,6 @@ string Interpreter::interpret(Term &term, bool colored)
         auto &cmpd = (Compound &)term;
         auto &components = cmpd.components();
         auto str_conn = CONNECTOR::Repr[(int)cmpd.connector];
-        auto last_it = components.end() - 1;
 
         if (colored)
         {
-- 
2.43.0


From 264e0d7aa63f8d774e4d3e255ee603a7b94c90ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:55 +0000
Subject: [PATCH 09/42] fix: give Term and Sentence virtual destructors, they
 are deleted through base pointers

---
 Narsese/include/Sentence.h | 2 ++
 Narsese/include/Term.h     | 1 +
 2 files changed, 3 insertions(+)

diff --git a/Narsese/include/Sentence.h b/Narsese/include/Sentence.h
index c8f6933..ae4cce7 100755
--- a/Narsese/include/Sentence.h
+++ b/Narsese/include/Sentence.h
@@ -130,6 +130,8 @@ namespace SENTENCE
                 stamp = pStamp(new Stamp(true));
         }
 
+        virtual ~Sentence() = default;
+
         inline bool is_judgement() { return punct == PUNCTUATION::Judgement; }
         inline bool is_question() { return punct == PUNCTUATION::Question; }
         inline bool is_goal() { return punct == PUNCTUATION::Goal; }
diff --git a/Narsese/include/Term.h b/Narsese/include/Term.h
index 525ab70..198d15c 100755
--- a/Narsese/include/Term.h
+++ b/Narsese/include/Term.h
@@ -124,6 +124,7 @@ namespace TERM
         // string word;
         Term() : hash_value(Hash{}(std::initializer_list<size_t>{(size_t)TermType::ATOM, (size_t)this})), is_hashed(true){};
         Term(const TermType _type) : type(_type) {}
+        virtual ~Term() = default;
         // ~Term()
         // {
         //     std::cout << (size_t)this << " Term freed" << std::endl;
-- 
2.43.0


From eb251352d82c75ff59e670b243016844338de7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:55 +0000
Subject: [PATCH 10/42] fix: print a goal's desire from the sentence, which
 need not be a Goal object

---
 Interpreter/src/Interpreter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index 1433dfc..d9b7deb 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -265,7 +265,7 @@ string Interpreter::interpret(Sentence &sentence, bool colored)
         }
         else if (sentence.is_goal())
         {
-            auto &truth = *((SENTENCE::Goal &)sentence).desire;
+            auto &truth = *sentence.truth;
             str_truth = fmt::format("{0}{1}{3}{2}{0}", fmt::format(color_percent, "%"), fmt::format(color_number, "{:.3f}", truth.f), fmt::format(color_number, "{:.3f}", truth.c), fmt::format(color_percent, ";"));
         }
         str_punct = fmt::format(color_punct, SENTENCE::PUNCTUATION::Repr[(int)(sentence.punct)]);
@@ -282,7 +282,7 @@ string Interpreter::interpret(Sentence &sentence, bool colored)
         }
         else if (sentence.is_goal())
         {
-            auto &truth = *((SENTENCE::Goal &)sentence).desire;
+            auto &truth = *sentence.truth;
             str_truth = fmt::format("%{:.3f};{:.3f}%", truth.f, truth.c);
         }
         str_punct = SENTENCE::PUNCTUATION::Repr[(int)(sentence.punct)];
-- 
2.43.0


From b1143ff9fcd369cd33a7dbb4300442b828ea72c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:55 +0000
Subject: [PATCH 11/42] fix: initialise the parser state that the generated
 parser leaves indeterminate

---
 Narsese/Parser/Parser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Narsese/Parser/Parser.cpp b/Narsese/Parser/Parser.cpp
index fcb41a8..84648df 100644
--- a/Narsese/Parser/Parser.cpp
+++ b/Narsese/Parser/Parser.cpp
@@ -7,7 +7,12 @@ Parser::Parser()
 {
     this->eof = '\n';
     this->stacksize = 0;
-    this->buf = NULL;
+    this->buf = this->bufend = NULL;
+    this->stack = this->tos = NULL;
+    this->lexem = NULL;
+    this->ast = NULL;
+    this->len = 0;
+    this->error_delay = this->error_count = 0;
     // const char *empty = "";
     // const char* start = "start";
     // auto len = sizeof(this->productions)/sizeof(this->productions[0]);
-- 
2.43.0


From 2cd41b38efbfd92ae2061bd2f693b0c7bd3004c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:43 +0000
Subject: [PATCH 12/42] fix: grow the parser stack before its last element is
 used, in reductions too

---
 Narsese/Parser/narsese.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index 24d113f..a5a3e2f 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -178,7 +178,7 @@ bool _parser::alloc_stack( void )
 
 		this->stacksize = UNICC_MALLOCSTEP;
 	}
-	else if( ( this->tos - this->stack ) == this->stacksize )
+	else if( ( this->tos - this->stack ) + 1 >= this->stacksize )
 	{
 		size_t			size = ( this->tos - this->stack );
 		_tok*	ptr;
@@ -798,6 +798,9 @@ int _parser::parse( void )
 
 			this->get_go();
 
+			if( !this->alloc_stack() )
+				return (int)NULL;
+
 			this->tos++;
 			this->tos->node = NULL;
 
-- 
2.43.0


From 3fa3391a69621c95d1d241e38e320b5afa86a977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:43 +0000
Subject: [PATCH 13/42] fix: keep the parser's input buffer terminated and do
 not read past its end

---
 Narsese/Parser/narsese.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index a5a3e2f..5b07ba7 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -263,6 +263,7 @@ UNICC_CHAR _parser::get_input( size_t offset )
 						"end-of-file reached\n", UNICC_PARSER );
 #endif
 			this->is_eof = true;
+			*( this->bufend ) = 0;
 			return this->eof;
 		}
 #if UNICC_DEBUG	> 2
@@ -323,7 +324,7 @@ void _parser::clear_input( void )
 #endif
 
 			memmove( this->buf, this->buf + this->len,
-						( ( this->bufend - ( this->buf + this->len ) ) + 1 + 1 )
+						( ( this->bufend - ( this->buf + this->len ) ) + 1 )
 							* sizeof( UNICC_CHAR ) );
 			this->bufend = this->buf + ( this->bufend - ( this->buf + this->len ) );
 
-- 
2.43.0


From ab5d661d17ccb6884dadc2f9d1cea6071970f317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:43 +0000
Subject: [PATCH 14/42] fix: read non-ASCII bytes as word characters and keep
 lexemes byte for byte

---
 Narsese/Parser/narsese.cpp | 6 ++++--
 Narsese/Parser/narsese.h   | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index 5b07ba7..b0d263f 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -22,7 +22,8 @@ UNICC_SCHAR* _parser::get_lexem( void )
 #else
 	size_t		size;
 
-	size = wcstombs( (char*)NULL, this->buf, 0 );
+	// The input is read byte by byte, so each element of the buffer is one byte.
+	for( size = 0; this->buf[ size ]; size++ );
 
 	free( this->lexem );
 
@@ -33,7 +34,8 @@ UNICC_SCHAR* _parser::get_lexem( void )
 		return NULL;
 	}
 
-	wcstombs( this->lexem, this->buf, size + 1 );
+	for( size_t i = 0; i <= size; i++ )
+		this->lexem[ i ] = (UNICC_SCHAR)this->buf[ i ];
 #endif
 
 #if UNICC_DEBUG	> 2
diff --git a/Narsese/Parser/narsese.h b/Narsese/Parser/narsese.h
index eb06ecf..ef0a1ab 100644
--- a/Narsese/Parser/narsese.h
+++ b/Narsese/Parser/narsese.h
@@ -206,7 +206,7 @@ public:
 		{
 			return EOF;
 		}
-		auto ch = *(buffer.c_str() + pointer);
+		auto ch = (unsigned char)*(buffer.c_str() + pointer);
 		pointer ++;
 		return ch;
 	}
-- 
2.43.0


From ec6f5632301f66e8850282a6d2f6c73e3e9e66a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:43 +0000
Subject: [PATCH 15/42] fix: free long syntax tree lists without recursion

---
 Narsese/Parser/narsese.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index b0d263f..13aeaff 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -47,16 +47,19 @@ UNICC_SCHAR* _parser::get_lexem( void )
 
 _ast* _parser::ast_free( _ast* node )
 {
-	if( !node )
-		return NULL;
+	while( node )
+	{
+		_ast*	next = node->next;
+
+		this->ast_free( node->child );
 
-	this->ast_free( node->child );
-	this->ast_free( node->next );
+		if( node->token )
+			free( node->token );
 
-	if( node->token )
-		free( node->token );
+		free( node );
+		node = next;
+	}
 
-	free( node );
 	return NULL;
 }
 
-- 
2.43.0


From c5637353906a6be6d77551acf3e92b546a8611f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:43 +0000
Subject: [PATCH 16/42] fix: a failed parse leaves no tree, no unread input and
 no leak behind

---
 Narsese/Parser/narsese.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index 13aeaff..25840ba 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -694,6 +694,7 @@ int _parser::parse( void )
 
 	memset( this->tos, 0, sizeof( _tok ) );
 
+	this->ast = NULL;
 	this->act = UNICC_SHIFT;
 	this->is_eof = false;
 	this->sym = this->old_sym = -1;
@@ -954,7 +955,13 @@ int _parser::parse( void )
 	// Save return value
 	ret = ( ( this->tos - 0 )->value );
 
-	// Clean up parser control block
+	// Free the syntax trees that a failed parse leaves on the stack
+	if( this->act != UNICC_SUCCESS )
+		for( ; this->tos >= this->stack; this->tos-- )
+			this->ast_free( this->tos->node );
+
+	// Clean up parser control block, drop all remaining input
+	this->len = 0;
 	UNICC_CLEARIN( this );
 
 	free( this->stack );
-- 
2.43.0


From 2cc2b7f9b25ee03ba81035cba391518252f75a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:43 +0000
Subject: [PATCH 17/42] fix: look parser callbacks up by name, not by the
 address of a string literal

---
 Narsese/Parser/Parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/Parser/Parser.h b/Narsese/Parser/Parser.h
index 5ba51b6..fa3117b 100644
--- a/Narsese/Parser/Parser.h
+++ b/Narsese/Parser/Parser.h
@@ -25,7 +25,7 @@ namespace PARSER
     {
     public:
         /* function mappings from name to pointer */
-        std::unordered_map<const char *, long> _map;
+        std::unordered_map<std::string, long> _map;
 
         /* variable mappings from name to index */
         std::unordered_map<std::string, long> names_ivar;
-- 
2.43.0


From 3d56913d6ab5d2b7b67bda2cf5640bbde651a01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:43 +0000
Subject: [PATCH 18/42] fix: accept numbers of any magnitude instead of
 throwing or overflowing

---
 Narsese/Parser/NarseseParser.cpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/Narsese/Parser/NarseseParser.cpp b/Narsese/Parser/NarseseParser.cpp
index 22e8b84..3940546 100644
--- a/Narsese/Parser/NarseseParser.cpp
+++ b/Narsese/Parser/NarseseParser.cpp
@@ -13,6 +13,9 @@
 // #include "Narsese/include/Truth.h"
 // #include "Narsese/include/Variable.h"
 #include "Narsese/include/Narsese.h"
+#include <algorithm>
+#include <climits>
+#include <cstdlib>
 #include <functional> // std::reference_wrapper
 #include <iostream>
 #include <memory>
@@ -64,6 +67,12 @@ inline _T get(void *obj)
 	return ret;
 }
 
+/* The nearest `signed int`, integers in the input can be out of its range. */
+inline signed int to_int(double x)
+{
+	return (signed int)std::min(std::max(x, (double)INT_MIN), (double)INT_MAX);
+}
+
 /*definitions*/
 void *NARSESEPARSER::task(Parser *self, const Args &args)
 {
@@ -477,7 +486,7 @@ void *NARSESEPARSER::interval(Parser *self, const Args &args)
 {
 	void *ret;
 	double dt = *(double *)args[0];
-	auto interval = (new pTerm(new Interval((signed int)dt)));
+	auto interval = (new pTerm(new Interval(to_int(dt))));
 	ret = interval;
 	delete (double *)args[0];
 	return ret;
@@ -766,7 +775,7 @@ void *NARSESEPARSER::tense_time(Parser *self, const Args &args)
 {
 	void *ret;
 	double t = *(double *)args[0];
-	ret = new std::tuple(0, (new (signed int)(t)));
+	ret = new std::tuple(0, (new (signed int)(to_int(t))));
 	delete (double *)args[0];
 	return ret;
 }
@@ -869,43 +878,43 @@ void *NARSESEPARSER::string(Parser *self, const Args &args)
 void *NARSESEPARSER::quality(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new double(std::stod((char *)args[0]));
+	ret = new double(std::strtod((char *)args[0], nullptr));
 	return ret;
 }
 void *NARSESEPARSER::durability(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new double(std::stod((char *)args[0]));
+	ret = new double(std::strtod((char *)args[0], nullptr));
 	return ret;
 }
 void *NARSESEPARSER::priority(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new double(std::stod((char *)args[0]));
+	ret = new double(std::strtod((char *)args[0], nullptr));
 	return ret;
 }
 void *NARSESEPARSER::k_evidence(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new double(std::stod((char *)args[0])); // e.g., "1"
+	ret = new double(std::strtod((char *)args[0], nullptr)); // e.g., "1"
 	return ret;
 }
 void *NARSESEPARSER::confidence(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new double(std::stod((char *)args[0])); // e.g., "0.90"
+	ret = new double(std::strtod((char *)args[0], nullptr)); // e.g., "0.90"
 	return ret;
 }
 void *NARSESEPARSER::frequency(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new double(std::stod((char *)args[0])); // e.g., "0.90"
+	ret = new double(std::strtod((char *)args[0], nullptr)); // e.g., "0.90"
 	return ret;
 }
 void *NARSESEPARSER::integer(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new double(std::stod((char *)args[0])); // e.g., 123
+	ret = new double(std::strtod((char *)args[0], nullptr)); // e.g., 123
 	return ret;
 }
 
-- 
2.43.0


From f2d27c38087f590442802bb4c31d49fdac074dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:43 +0000
Subject: [PATCH 19/42] fix: print negative intervals in the form the parser
 reads

---
 Interpreter/src/Interpreter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index d9b7deb..5a4093a 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -56,9 +56,9 @@ string Interpreter::interpret(Term &term, bool colored)
         {
             auto &interval = (INTERVAL::Interval &)term;
             if (colored)
-                return fmt::format(color_number, fmt::format("{:+d}", interval.interval));
+                return fmt::format(color_number, fmt::format("+{:d}", interval.interval));
             else
-                return fmt::format("{:+d}", interval.interval);
+                return fmt::format("+{:d}", interval.interval);
         }
     }
 
-- 
2.43.0


From 85111dd08f7a96efb25ecdea7655e7846fe15099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:18 +0000
Subject: [PATCH 20/42] fix: key the name table with whole hash values, not
 their lower 32 bits

---
 Interpreter/include/Interpreter.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Interpreter/include/Interpreter.hpp b/Interpreter/include/Interpreter.hpp
index d179b37..4f23977 100644
--- a/Interpreter/include/Interpreter.hpp
+++ b/Interpreter/include/Interpreter.hpp
@@ -38,7 +38,7 @@ namespace INTERPRETER
         map<string, size_t> dictionary_inv;
         map<size_t, int> count;
 
-        inline void put(int key, string name, void *object)
+        inline void put(size_t key, string name, void *object)
         {
             dictionary[key] = name;
             objects[key] = (pTerm *)object;
@@ -46,12 +46,12 @@ namespace INTERPRETER
             count[key] = (check_count(key) == 0) ? 1 : (count[key] + 1);
         }
 
-        inline string &get(int key) { return dictionary[key]; }
-        inline pTerm *get_object(int key) { return objects[key]; }
-        inline int get_by_name(string &name) { return dictionary_inv[name]; }
-        inline bool check(int key) { return dictionary.count(key) == 1; }
+        inline string &get(size_t key) { return dictionary[key]; }
+        inline pTerm *get_object(size_t key) { return objects[key]; }
+        inline size_t get_by_name(string &name) { return dictionary_inv[name]; }
+        inline bool check(size_t key) { return dictionary.count(key) == 1; }
         inline bool check_by_name(string &name) { return dictionary_inv.count(name) == 1; }
-        inline int check_count(int key)
+        inline int check_count(size_t key)
         {
             if (count.count(key) == 0)
             {
@@ -68,7 +68,7 @@ namespace INTERPRETER
             }
         }
 
-        inline bool remove(int key)
+        inline bool remove(size_t key)
         {
             if (check(key))
             {
@@ -118,7 +118,7 @@ namespace INTERPRETER
             }
         }
 
-        inline bool erase(int key)
+        inline bool erase(size_t key)
         {
             if (check_count(key) > 0)
             {
-- 
2.43.0


From 317bd5e1c5f40bef1384fcb5ce8db1ccbcdfe1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:18 +0000
Subject: [PATCH 21/42] fix: Interpreter::reset releases the entries of terms
 that are still referenced

---
 Interpreter/include/Interpreter.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/Interpreter/include/Interpreter.hpp b/Interpreter/include/Interpreter.hpp
index 4f23977..a9f6f1e 100644
--- a/Interpreter/include/Interpreter.hpp
+++ b/Interpreter/include/Interpreter.hpp
@@ -150,18 +150,16 @@ namespace INTERPRETER
         void reset()
         {
 
-            for (auto pair : objects)
-            {
-                auto ptr = pair.second;
-                if ((*ptr).use_count() == 1)
-                {
-                    delete ptr;
-                }
-            }
-            objects.clear();
+            /* The tables are emptied at first, because a term can look itself up in them when it is released. */
+            map<size_t, pTerm *> _objects;
+            _objects.swap(objects);
             dictionary.clear();
             dictionary_inv.clear();
             count.clear();
+            for (auto pair : _objects)
+            {
+                delete pair.second;
+            }
         }
 
         ~Interpreter()
-- 
2.43.0


From f20216257c5352e6f9d30a0f8a206d1df2b2bc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:18 +0000
Subject: [PATCH 22/42] fix: print coloured sentences, and the sentence of a
 coloured task in colour

---
 Interpreter/src/Interpreter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index 5a4093a..e45c808 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -233,7 +233,7 @@ string Interpreter::interpret(Task &task, bool colored)
     auto color_durability = fmt::bg(fmt::rgb(10, std::min(255, int(255 * d / 2 + 10)), 10));
     auto color_quality = fmt::bg(fmt::rgb(10, 10, std::min(255, int(255 * q / 1.5 + 10))));
 
-    auto str_sentence = interpret(*task.sentence);
+    auto str_sentence = interpret(*task.sentence, colored);
 
     if (colored)
     {
@@ -271,7 +271,7 @@ string Interpreter::interpret(Sentence &sentence, bool colored)
         str_punct = fmt::format(color_punct, SENTENCE::PUNCTUATION::Repr[(int)(sentence.punct)]);
         str_stamp = sentence.stamp->is_eternal ? "" : fmt::format(color_tense, "{} ", TENSE::Repr[sentence.stamp->tense()]);
 
-        return fmt::format("{}{} {}{} {}{}", str_term, str_punct, str_stamp, str_truth);
+        return fmt::format("{}{} {}{}", str_term, str_punct, str_stamp, str_truth);
     }
     else
     {
-- 
2.43.0


From 8edf9bfba0299673bcc5e7338b59adb36953545f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:18 +0000
Subject: [PATCH 23/42] fix: do not use names as format strings in coloured
 output

---
 Interpreter/src/Interpreter.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index e45c808..ebcb7b5 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -45,7 +45,7 @@ string Interpreter::interpret(Term &term, bool colored)
             auto str = prefix + std::to_string(idx_var);
             if (colored)
             {
-                return fmt::format(color_term, str);
+                return fmt::format(color_term, "{}", str);
             }
             else
             {
@@ -56,7 +56,7 @@ string Interpreter::interpret(Term &term, bool colored)
         {
             auto &interval = (INTERVAL::Interval &)term;
             if (colored)
-                return fmt::format(color_number, fmt::format("+{:d}", interval.interval));
+                return fmt::format(color_number, "+{:d}", interval.interval);
             else
                 return fmt::format("+{:d}", interval.interval);
         }
@@ -68,9 +68,9 @@ string Interpreter::interpret(Term &term, bool colored)
         if (term.type == TermType::ATOM && colored)
         {
             if (!term.is_operation)
-                return fmt::format(color_term, this->get(key));
+                return fmt::format(color_term, "{}", this->get(key));
             else
-                return fmt::format(color_operation, this->get(key));
+                return fmt::format(color_operation, "{}", this->get(key));
         }
         return this->get(key);
     }
@@ -99,14 +99,14 @@ string Interpreter::interpret(Term &term, bool colored)
         if (!term.is_operation)
         {
             if (colored)
-                str_ret = fmt::format(color_term, fmt::format("0x{:x}", (long)(&term)));
+                str_ret = fmt::format(color_term, "0x{:x}", (long)(&term));
             else
                 str_ret = fmt::format("0x{:x}", (long)(&term));
         }
         else
         {
             if (colored)
-                str_ret = fmt::format(color_operation, fmt::format("^0x{:x}", (long)(&term)));
+                str_ret = fmt::format(color_operation, "^0x{:x}", (long)(&term));
             else
                 str_ret = fmt::format("^0x{:x}", (long)(&term));
         }
@@ -127,7 +127,7 @@ string Interpreter::interpret(Term &term, bool colored)
                 auto str1 = fmt::format(color_angle, "<");
                 // auto str2 = fmt::format(color_term, str_subject);
                 auto str2 = fmt::format(fmt::format(color_term, "{{}}"), str_subject);
-                auto str3 = fmt::format(color_copula, str_copula);
+                auto str3 = fmt::format(color_copula, "{}", str_copula);
                 // auto str4 = fmt::format(color_term, str_predicate);
                 auto str4 = fmt::format(fmt::format(color_term, "{{}}"), str_predicate);
                 auto str5 = fmt::format(color_angle, ">");
@@ -183,7 +183,7 @@ string Interpreter::interpret(Term &term, bool colored)
             }
             else
             {
-                ss << fmt::format(color_parenthesis, "(") << fmt::format(color_connector, str_conn) << fmt::format(color_seperator, ", ");
+                ss << fmt::format(color_parenthesis, "(") << fmt::format(color_connector, "{}", str_conn) << fmt::format(color_seperator, ", ");
                 append_strs(ss, components);
                 ss << fmt::format(color_parenthesis, ")");
             }
-- 
2.43.0


From 2b2468ea4020312fa9d7a5b4c0d4304abdbc1034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:57 +0000
Subject: [PATCH 24/42] fix: release an atom from the name table when its last
 reference is overwritten

---
 Narsese/include/Term.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Narsese/include/Term.h b/Narsese/include/Term.h
index 198d15c..a1734a5 100755
--- a/Narsese/include/Term.h
+++ b/Narsese/include/Term.h
@@ -58,6 +58,16 @@ namespace TERM
         pTerm() : std::shared_ptr<Term>::shared_ptr() {}
         pTerm(Term *term, void *interpreter = nullptr) : std::shared_ptr<Term>(term), _interpreter(interpreter) {}
         // pTerm() : std::shared_ptr<Term>() {}
+        pTerm(const pTerm &other) = default;
+
+        pTerm &operator=(const pTerm &other)
+        {
+            /* The destructor of `copy` releases the term that is overwritten. */
+            pTerm copy(other);
+            this->swap(copy);
+            std::swap(this->_interpreter, copy._interpreter);
+            return *this;
+        }
 
         ~pTerm();
 
-- 
2.43.0


From b58007ab4c93226b69cfec57f613257660516c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:57 +0000
Subject: [PATCH 25/42] fix: give a stamp without evidential base one of its
 own

---
 Narsese/include/Sentence.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/include/Sentence.h b/Narsese/include/Sentence.h
index ae4cce7..bf240df 100755
--- a/Narsese/include/Sentence.h
+++ b/Narsese/include/Sentence.h
@@ -61,8 +61,8 @@ namespace SENTENCE
 
         Stamp(signed int t_occurrence, signed int t_creation, signed int t_put, pBase evidential_base, bool is_eternal = true) : t_occurrence(t_occurrence), t_creation(t_creation), t_put(t_put), evidential_base(evidential_base), is_eternal(is_eternal)
         {
-            if (evidential_base == nullptr)
-                evidential_base = pBase(new Base());
+            if (this->evidential_base == nullptr)
+                this->evidential_base = pBase(new Base());
         }
 
         static pStamp create(bool is_eternal = false)
-- 
2.43.0


From e86fd93ce4a3fa114282ab734b1cbaf1b676a206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:57 +0000
Subject: [PATCH 26/42] fix: a judgement or goal created without a truth-value
 gets the default one

---
 Narsese/include/Sentence.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Narsese/include/Sentence.h b/Narsese/include/Sentence.h
index bf240df..0553671 100755
--- a/Narsese/include/Sentence.h
+++ b/Narsese/include/Sentence.h
@@ -128,6 +128,10 @@ namespace SENTENCE
         {
             if (stamp == nullptr)
                 stamp = pStamp(new Stamp(true));
+            if (truth == nullptr && punct == PUNCTUATION::Judgement)
+                truth = pTruth(new Truth(CONFIG::f, CONFIG::c_judgement, CONFIG::k));
+            else if (truth == nullptr && punct == PUNCTUATION::Goal)
+                truth = pTruth(new Truth(CONFIG::f, CONFIG::c_goal, CONFIG::k));
         }
 
         virtual ~Sentence() = default;
-- 
2.43.0


From e86b90eb7ee86f9afcf0e06a3866041ab32c7746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:57 +0000
Subject: [PATCH 27/42] fix: share the clock and the evidence counter between
 translation units

---
 Global.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Global.h b/Global.h
index ec26c8a..26f84c2 100755
--- a/Global.h
+++ b/Global.h
@@ -3,8 +3,8 @@
 
 namespace GLOBAL
 {
-    static unsigned long time = 0;
-    static unsigned long _input_id = 0;
+    inline unsigned long time = 0;
+    inline unsigned long _input_id = 0;
 
     inline unsigned long get_input_id()
     {
-- 
2.43.0


From e60c12f259af7937d35d0574018b48b655491a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:57 +0000
Subject: [PATCH 28/42] fix: keep the evidence of both bases when they are
 merged, within the maximum length

---
 Narsese/include/Evidence.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Narsese/include/Evidence.h b/Narsese/include/Evidence.h
index b96dd73..69b7b40 100755
--- a/Narsese/include/Evidence.h
+++ b/Narsese/include/Evidence.h
@@ -32,9 +32,10 @@ namespace EVIDENCE
 
         void extend(const Base &other)
         {
-            auto base1 = Base(*this);
-            auto &base2 = other;
-            this->_set->clear();
+            auto base1 = Base(*this->_set);
+            auto base2 = Base(*other._set);
+            this->_set = shared_ptr<set<size_t>>(new set<size_t>());
+            this->_is_hashed = false;
             Base::interleave(*this, base1, base2);
         }
 
@@ -52,7 +53,7 @@ namespace EVIDENCE
                     it2++;
                     i++;
                 }
-                if (it1 != base1._set->end())
+                if (i < base_length && it1 != base1._set->end())
                 {
                     base._set->insert(*it1);
                     it1++;
@@ -63,7 +64,7 @@ namespace EVIDENCE
 
         static auto interleave(const Base &base1, const Base &base2)
         {
-            auto base = pBase(new Base());
+            auto base = pBase(new Base(set<size_t>()));
             Base::interleave(*base, base1, base2);
             return base;
         }
-- 
2.43.0


From 442a66048d285d2984cf1c88c7f5e888c3910ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:57 +0000
Subject: [PATCH 29/42] fix: connecting index variables with positions adds the
 son once and leaves it alone

---
 utils/IndexVar.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/utils/IndexVar.cpp b/utils/IndexVar.cpp
index c9f7293..c6861c4 100755
--- a/utils/IndexVar.cpp
+++ b/utils/IndexVar.cpp
@@ -73,7 +73,6 @@ void IndexVar::connect(pIndexVar father, pIndexVar son, bool generate_pos)
         return;
 
     int bias_pos = father->successors.size() - 1;
-    auto &indices = son->indices;
     std::vector<std::vector<int>> positions;
     for (const auto &pos : son->positions)
     {
@@ -81,9 +80,7 @@ void IndexVar::connect(pIndexVar father, pIndexVar son, bool generate_pos)
         position.insert(position.end(), pos.begin(), pos.end());
         positions.push_back(position);
     }
-    indices.insert(indices.end(), son->indices.begin(), son->indices.end());
-    positions.insert(positions.end(), son->positions.begin(), son->positions.end());
-    father->indices.insert(father->indices.end(), indices.begin(), indices.end());
+    father->indices.insert(father->indices.end(), son->indices.begin(), son->indices.end());
     father->positions.insert(father->positions.end(), positions.begin(), positions.end());
 }
 
-- 
2.43.0


From ce80cba543dd026c1623a5c8747a33c2a9b2c0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:57 +0000
Subject: [PATCH 30/42] fix: building an index variable refreshes its
 normalised indices and hash

---
 utils/IndexVar.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/IndexVar.cpp b/utils/IndexVar.cpp
index c6861c4..8937b29 100755
--- a/utils/IndexVar.cpp
+++ b/utils/IndexVar.cpp
@@ -111,6 +111,8 @@ void IndexVar::build(bool rebuild)
     }
 
     this->_is_built = true;
+    this->_is_hashed = false;
+    this->_indices_normalized = nullptr;
     this->_hash_value = hash(*this);
 }
 
-- 
2.43.0


From 6e9c4f2b1edf48b95dcc769230b390c7fd13f647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:57 +0000
Subject: [PATCH 31/42] fix: project truth-values with real division and
 without integer overflow

---
 NAL/Functions/include/TemporalFunctions.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/NAL/Functions/include/TemporalFunctions.h b/NAL/Functions/include/TemporalFunctions.h
index 86b2529..7c0be0b 100644
--- a/NAL/Functions/include/TemporalFunctions.h
+++ b/NAL/Functions/include/TemporalFunctions.h
@@ -2,6 +2,7 @@
 #define _TEMPORAL_FUNCTIONS_H
 
 #include "Narsese/include/Truth.h"
+#include <cmath>
 
 namespace TEMPORAL_FUNCTIONS
 {
@@ -10,8 +11,10 @@ namespace TEMPORAL_FUNCTIONS
 
     inline auto project(pTruth truth, int64_t t_source, int64_t t_current, int64_t t_target, size_t decay_duration = 1000)
     {
-        auto d = (abs(t_source - t_current) + abs(t_target - t_current)) + decay_duration;
-        auto k_c = d > 0 ? abs(t_source - t_target) / d : 0;
+        auto distance = [](int64_t t1, int64_t t2)
+        { return std::abs((double)t1 - (double)t2); };
+        double d = (distance(t_source, t_current) + distance(t_target, t_current)) + decay_duration;
+        double k_c = d > 0 ? distance(t_source, t_target) / d : 0;
         auto c_new = (1 - k_c) * truth->c;
         return Truth::create(truth->f, c_new, truth->k);
     }
-- 
2.43.0


From 16d2c67306a9d3fa2b875aa4349ad1dac1aefe1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:57 +0000
Subject: [PATCH 32/42] fix: symmetrize and reverse of a copula return the
 copula

---
 Narsese/include/Copula.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/include/Copula.h b/Narsese/include/Copula.h
index f6bf5d3..e32dfcc 100755
--- a/Narsese/include/Copula.h
+++ b/Narsese/include/Copula.h
@@ -48,8 +48,8 @@ namespace COPULA
     inline bool is_commutative(Copula copula) { return _commutative[copula]; }
     inline bool is_higher_order(Copula copula) { return _higher_order[copula]; }
     inline bool is_temporal(Copula copula) { return _temporal[copula]; }
-    inline bool symmetrize(Copula copula) { return _symmetrize[copula]; }
-    inline bool reverse(Copula copula) { return _reverse[copula]; }
+    inline Copula symmetrize(Copula copula) { return _symmetrize[copula]; }
+    inline Copula reverse(Copula copula) { return _reverse[copula]; }
 
     void pybind_copula(py::module &m);
 
-- 
2.43.0


From 1166230cc28122201347e602b21f372bc7cb1b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:57 +0000
Subject: [PATCH 33/42] fix: an interval that was increased is hashed by its
 new value

---
 Narsese/include/Interval.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Narsese/include/Interval.h b/Narsese/include/Interval.h
index 3dd0cc7..85b9c3e 100755
--- a/Narsese/include/Interval.h
+++ b/Narsese/include/Interval.h
@@ -24,7 +24,14 @@ namespace INTERVAL
         Interval(signed int interval) : interval(interval)
         {
             this->Term::is_interval = true;
+            this->do_hashing();
+        }
+
+        virtual size_t do_hashing()
+        {
             this->hash_value = Hash{}(std::initializer_list<signed int>{TermType::INTERVAL, this->interval});
+            this->is_hashed = true;
+            return this->hash_value;
         }
 
         operator signed int() const
@@ -40,6 +47,7 @@ namespace INTERVAL
         Interval &operator+=(const Interval &other)
         {
             interval += other.interval;
+            this->do_hashing();
             return *this;
         }
     };
-- 
2.43.0


From a8724e34cdc0ec3d95ef2fd32083b736fbe12677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:32 +0000
Subject: [PATCH 34/42] fix: tenses of the input are relative to the current
 time

---
 Narsese/Parser/NarseseParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Narsese/Parser/NarseseParser.cpp b/Narsese/Parser/NarseseParser.cpp
index 3940546..8197279 100644
--- a/Narsese/Parser/NarseseParser.cpp
+++ b/Narsese/Parser/NarseseParser.cpp
@@ -782,20 +782,20 @@ void *NARSESEPARSER::tense_time(Parser *self, const Args &args)
 void *NARSESEPARSER::tense_future(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new std::tuple(0, (new (signed int)(CONFIG::temporal_duration)));
+	ret = new std::tuple(0, (new (signed int)(GLOBAL::time + CONFIG::temporal_duration)));
 	return ret;
 }
 void *NARSESEPARSER::tense_present(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new std::tuple(0, (new (signed int)(0)));
+	ret = new std::tuple(0, (new (signed int)(GLOBAL::time)));
 
 	return ret;
 }
 void *NARSESEPARSER::tense_past(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new std::tuple(0, (new (signed int)(-CONFIG::temporal_duration)));
+	ret = new std::tuple(0, (new (signed int)(GLOBAL::time - CONFIG::temporal_duration)));
 	return ret;
 }
 void *NARSESEPARSER::truth(Parser *self, const Args &args)
-- 
2.43.0


From 1adf39617820a312d8f11745244728f7d2763815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:32 +0000
Subject: [PATCH 35/42] fix: parse() raises RuntimeError for invalid input
 instead of returning with an error set

---
 Narsese/Parser/NarseseParser.cpp | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/Narsese/Parser/NarseseParser.cpp b/Narsese/Parser/NarseseParser.cpp
index 8197279..a471fe5 100644
--- a/Narsese/Parser/NarseseParser.cpp
+++ b/Narsese/Parser/NarseseParser.cpp
@@ -1003,24 +1003,11 @@ void NARSESEPARSER::pybind_parse(py::module &m)
 		"parse",
 		[](std::string line) -> py::object
 		{
-			try
-			{
-				auto task = NARSESEPARSER::parser->parse_task(line);
-				if (task == nullptr)
-					throw std::runtime_error("Parsing error - Please check the syntax.");
-				return py::cast(task);
-			}
-			catch (std::exception &e)
-			{
-				// std::cout << e.what() << std::endl;
-				PyErr_SetString(PyExc_RuntimeError, e.what());
-				return py::none();
-			}
-			catch (...)
-			{
-				PyErr_SetString(PyExc_RuntimeError, "Unknown error occurred.");
-				return pybind11::none();
-			}
+			/* `std::runtime_error` is translated into `RuntimeError` of Python. */
+			auto task = NARSESEPARSER::parser->parse_task(line);
+			if (task == nullptr)
+				throw std::runtime_error("Parsing error - Please check the syntax.");
+			return py::cast(task);
 		},
 		py::arg("line"));
 }
\ No newline at end of file
-- 
2.43.0


From 49ff9ea0a90622c18d90f0f1d7ff2baafbcd67c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:32 +0000
Subject: [PATCH 36/42] fix: repr() of terms, sentences and tasks works without
 an interpreter argument

---
 Narsese/src/Compound.cpp  | 2 +-
 Narsese/src/Sentence.cpp  | 2 +-
 Narsese/src/Statement.cpp | 2 +-
 Narsese/src/Task.cpp      | 2 +-
 Narsese/src/Term.cpp      | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Narsese/src/Compound.cpp b/Narsese/src/Compound.cpp
index 575a418..7ac8aab 100755
--- a/Narsese/src/Compound.cpp
+++ b/Narsese/src/Compound.cpp
@@ -347,5 +347,5 @@ void COMPOUND::pybind_compound(py::module &m)
                 if (interpreter == nullptr)
                     interpreter = (void *)&INTERPRETER::interpreter;
                 return self.__repr__(interpreter);
-            });
+            }, py::arg("interpreter") = py::none());
 }
diff --git a/Narsese/src/Sentence.cpp b/Narsese/src/Sentence.cpp
index 49b06d9..572a215 100755
--- a/Narsese/src/Sentence.cpp
+++ b/Narsese/src/Sentence.cpp
@@ -40,6 +40,6 @@ namespace SENTENCE
                 if (interpreter == nullptr)
                     interpreter = (void *)&INTERPRETER::interpreter;
                 return self.__repr__(interpreter);
-            });
+            }, py::arg("interpreter") = py::none());
     }
 }
\ No newline at end of file
diff --git a/Narsese/src/Statement.cpp b/Narsese/src/Statement.cpp
index 3f40542..b5cdb31 100755
--- a/Narsese/src/Statement.cpp
+++ b/Narsese/src/Statement.cpp
@@ -25,6 +25,6 @@ namespace STATEMENT
                 if (interpreter == nullptr)
                     interpreter = (void *)&INTERPRETER::interpreter;
                 return self.__repr__(interpreter);
-            });
+            }, py::arg("interpreter") = py::none());
     }
 }
diff --git a/Narsese/src/Task.cpp b/Narsese/src/Task.cpp
index 767b102..d71b92b 100755
--- a/Narsese/src/Task.cpp
+++ b/Narsese/src/Task.cpp
@@ -25,7 +25,7 @@ namespace TASK
                 if (interpreter == nullptr)
                     interpreter = (void *)&INTERPRETER::interpreter;
                 return self.__repr__(interpreter);
-            });
+            }, py::arg("interpreter") = py::none());
     }
 
 }
diff --git a/Narsese/src/Term.cpp b/Narsese/src/Term.cpp
index c19e2fc..9c8f07b 100755
--- a/Narsese/src/Term.cpp
+++ b/Narsese/src/Term.cpp
@@ -132,7 +132,7 @@ namespace TERM
                 if (interpreter == nullptr)
                     interpreter = (void *)&INTERPRETER::interpreter;
                 return self.__repr__(interpreter);
-            });
+            }, py::arg("interpreter") = py::none());
     }
 
     void pybind_terms(py::module &m)
-- 
2.43.0


From 611a77aae58ef39a0f84901a26d4a0d595acb4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:32 +0000
Subject: [PATCH 37/42] fix: export ExtensionalDifference under its own value

---
 Narsese/src/Connector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/src/Connector.cpp b/Narsese/src/Connector.cpp
index 6ce8f9f..52a2d97 100755
--- a/Narsese/src/Connector.cpp
+++ b/Narsese/src/Connector.cpp
@@ -15,7 +15,7 @@ namespace CONNECTOR
             .value("SequentialEvents", CONNECTOR::Connector::SequentialEvents, "&/")
             .value("IntensionalIntersection", CONNECTOR::Connector::IntensionalIntersection, "|")
             .value("ExtensionalIntersection", CONNECTOR::Connector::ExtensionalIntersection, "&")
-            .value("ExtensionalDifference", CONNECTOR::Connector::ParallelEvents, "-")
+            .value("ExtensionalDifference", CONNECTOR::Connector::ExtensionalDifference, "-")
             .value("IntensionalDifference", CONNECTOR::Connector::IntensionalDifference, "~")
             .value("Negation", CONNECTOR::Connector::Negation, "--")
             .value("IntensionalSet", CONNECTOR::Connector::IntensionalSet, "[")
-- 
2.43.0


From 3d64990a93cbba764796c3003d88170bb0a3d4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:32 +0000
Subject: [PATCH 38/42] fix: iterate the components of a compound over a copy,
 not over freed iterators

---
 Narsese/src/Term.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/src/Term.cpp b/Narsese/src/Term.cpp
index 9c8f07b..2453d80 100755
--- a/Narsese/src/Term.cpp
+++ b/Narsese/src/Term.cpp
@@ -113,7 +113,7 @@ namespace TERM
                     else if (self->is_statement())
                         return py::iter(py::cast(std::vector<pTerm>{self->subject, self->predicate}));
                     else if (self->is_compound())
-                        return py::make_iterator(self->terms->begin(), self->terms->end());
+                        return py::iter(py::cast(std::vector<pTerm>(*self->terms)));
                     else
                     {
                         PyErr_SetString(PyExc_TypeError, fmt::format("In file <{}> line <{}>: Invalid TermType", __FILE__, __LINE__).c_str());
-- 
2.43.0


From 09b7335458224505a1b9cd57a9b9d283d1da3194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:57 +0000
Subject: [PATCH 39/42] fix: call the functions of childless nodes with an
 empty list, not through a null pointer

---
 Narsese/Parser/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/Parser/Parser.cpp b/Narsese/Parser/Parser.cpp
index 84648df..c109d16 100644
--- a/Narsese/Parser/Parser.cpp
+++ b/Narsese/Parser/Parser.cpp
@@ -100,7 +100,7 @@ Args *Parser::transform(_ast *node)
             auto fptr = this->get_function(name);
             if (fptr != 0)
             {
-                ret = ((METHOD)fptr)(this, *ret_args);
+                ret = ((METHOD)fptr)(this, (ret_args != nullptr) ? *ret_args : Args());
             }
             if (ret_args != nullptr)
             {
-- 
2.43.0


From 49b3cb3363cf272048c22d0b37b728417e2c8a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:53 +0000
Subject: [PATCH 40/42] fix: a variable never equals an interval whose hash it
 shares

---
 Narsese/include/Term.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Narsese/include/Term.inl b/Narsese/include/Term.inl
index 81ec9a3..3e52dca 100644
--- a/Narsese/include/Term.inl
+++ b/Narsese/include/Term.inl
@@ -74,6 +74,7 @@ namespace TERM
                     return *(this->_vars_dependent->indices[0]) == *(other._vars_dependent->indices[0]);
                 else if (this->is_ivar && other.is_ivar)
                     return *(this->_vars_independent->indices[0]) == *(other._vars_independent->indices[0]);
+                return false;
             }
             return hash(*this) == hash(other);
         }
-- 
2.43.0


From c3ee68333fc4a191e1294c488a8296ea39566e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:28 +0000
Subject: [PATCH 41/42] fix: iterators over terms can be copied and assigned

---
 Narsese/include/Term.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/Narsese/include/Term.h b/Narsese/include/Term.h
index a1734a5..c05d5c1 100755
--- a/Narsese/include/Term.h
+++ b/Narsese/include/Term.h
@@ -224,14 +224,19 @@ namespace TERM
         using iterator_category = std::input_iterator_tag;
 
     public:
-        Iterator(const Iterator &iterator)
+        Iterator(const Iterator &iterator) : _is_commutative(iterator._is_commutative)
         {
-            *this = iterator;
             if (this->_is_commutative)
                 it_ = new auto(*(std::set<pTerm>::iterator *)(iterator.it_));
             else
                 it_ = new auto(*(std::vector<pTerm>::iterator *)(iterator.it_));
         }
+        Iterator &operator=(Iterator iterator)
+        {
+            std::swap(this->_is_commutative, iterator._is_commutative);
+            std::swap(this->it_, iterator.it_);
+            return *this;
+        }
         Iterator(std::vector<pTerm>::const_iterator it) : it_((void *)new auto(it)), _is_commutative(false) {}
         Iterator(std::set<pTerm>::iterator it) : it_((void *)new auto(it)), _is_commutative(true) {}
 
@@ -240,9 +245,9 @@ namespace TERM
             if (it_ == nullptr)
                 return;
             if (this->_is_commutative)
-                delete ((std::vector<pTerm>::iterator *)it_);
-            else
                 delete ((std::set<pTerm>::iterator *)it_);
+            else
+                delete ((std::vector<pTerm>::iterator *)it_);
             it_ = nullptr;
         }
 
-- 
2.43.0


From 9f05363c8225f0517e21021944cdca490a31d98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:39 +0000
Subject: [PATCH 42/42] fix: refuse a line that contains a NUL character
 instead of reading what precedes it

---
 Narsese/Parser/Parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Narsese/Parser/Parser.cpp b/Narsese/Parser/Parser.cpp
index c109d16..733563c 100644
--- a/Narsese/Parser/Parser.cpp
+++ b/Narsese/Parser/Parser.cpp
@@ -32,6 +32,8 @@ Parser::Parser()
 
 void *Parser::parse_string(std::string &input)
 {
+    if (input.find('\0') != std::string::npos)
+        return nullptr; // the lexer takes it for the end of the input
     char_fetcher.switch_string_mode();
     char_fetcher.fill(input);
 
-- 
2.43.0

