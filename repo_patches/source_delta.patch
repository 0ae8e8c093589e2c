From 7b202dc728c34754923da9b436e09ed1525318e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:15 +0000
Subject: [PATCH 01/65] fix: keep source states when converting
 HfstBasicTransducer to log OpenFst

The loop over states never advanced source_state, so every transition was
attached to the initial state.
---
 libhfst/src/implementations/ConvertLogWeightTransducer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libhfst/src/implementations/ConvertLogWeightTransducer.cc b/libhfst/src/implementations/ConvertLogWeightTransducer.cc
index 2441430..e45cd77 100644
--- a/libhfst/src/implementations/ConvertLogWeightTransducer.cc
+++ b/libhfst/src/implementations/ConvertLogWeightTransducer.cc
@@ -267,6 +267,7 @@ ConversionFunctions::hfst_basic_transducer_to_log_ofst(
                             hfst_state_to_state_id(tr_it->get_target_state(),
                                                    state_map, t)));
         }
+        source_state++;
     }
 
     // Go through the final states
-- 
2.43.0


From d6d170654a816c52368cb0ddd4e4ec240a63565b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:05 +0000
Subject: [PATCH 02/65] fix: give symbol-less foma results a symbol list

fsm_reverse, fsm_upper and fsm_lower leave the symbol list NULL if a result
has no symbols; a following fsm_kleene_star then crashes.
---
 libhfst/src/implementations/FomaTransducer.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libhfst/src/implementations/FomaTransducer.cc b/libhfst/src/implementations/FomaTransducer.cc
index 2afc03d..21fc5a6 100644
--- a/libhfst/src/implementations/FomaTransducer.cc
+++ b/libhfst/src/implementations/FomaTransducer.cc
@@ -357,6 +357,15 @@ namespace hfst { namespace implementations {
     return net;
   }
 
+  // foma leaves the symbol list of some results empty (NULL) if they have no
+  // symbols in transitions, but does not accept such a list in its arguments.
+  static fsm * ensure_sigma(fsm * t)
+  {
+    if (t->sigma == NULL)
+      t->sigma = sigma_create();
+    return t;
+  }
+
   fsm * FomaTransducer::copy(fsm * t)
   {
     return fsm_copy(t);
@@ -412,19 +421,19 @@ namespace hfst { namespace implementations {
 
   fsm * FomaTransducer::reverse(fsm * t)
   {
-    return fsm_reverse(fsm_copy(t));
+    return ensure_sigma(fsm_reverse(fsm_copy(t)));
   }
 
   fsm * FomaTransducer::extract_input_language(fsm * t)
   {
     // foma does not handle epsilon transducer properly..
-    return fsm_upper(fsm_copy(t));
+    return ensure_sigma(fsm_upper(fsm_copy(t)));
   }
 
   fsm * FomaTransducer::extract_output_language(fsm * t)
   {
     // foma does not handle epsilon transducer properly..
-    return fsm_lower(fsm_copy(t));
+    return ensure_sigma(fsm_lower(fsm_copy(t)));
   }
 
   fsm * FomaTransducer::substitute(fsm * t,String old_symbol,String new_symbol)
-- 
2.43.0


From 7439ad98a8bf104150e47544ab840bd1cac95cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:45 +0000
Subject: [PATCH 03/65] fix: use shared symbol numbers when converting to log
 OpenFst

Numbers were given in order of appearance, so harmonized transducers had
different encodings and OpenFst ended the process in Union and Concat.
---
 .../ConvertLogWeightTransducer.cc             | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/libhfst/src/implementations/ConvertLogWeightTransducer.cc b/libhfst/src/implementations/ConvertLogWeightTransducer.cc
index e45cd77..096b043 100644
--- a/libhfst/src/implementations/ConvertLogWeightTransducer.cc
+++ b/libhfst/src/implementations/ConvertLogWeightTransducer.cc
@@ -249,6 +249,14 @@ ConversionFunctions::hfst_basic_transducer_to_log_ofst(
     st.AddSymbol(internal_unknown, 1);
     st.AddSymbol(internal_identity, 2);
 
+    // Copy the alphabet, with the symbol numbers shared by all transducers
+    for (HfstBasicTransducer::HfstAlphabet::const_iterator it
+         = net->alphabet.begin();
+         it != net->alphabet.end(); it++)
+    {
+        st.AddSymbol(*it, net->get_symbol_number(*it));
+    }
+
     // Go through all states
     unsigned int source_state = 0;
     for (HfstBasicTransducer::const_iterator it = net->begin();
@@ -261,8 +269,8 @@ ConversionFunctions::hfst_basic_transducer_to_log_ofst(
             // Copy the transition
             t->AddArc(
                 hfst_state_to_state_id(source_state, state_map, t),
-                fst::LogArc(st.AddSymbol(tr_it->get_input_symbol()),
-                            st.AddSymbol(tr_it->get_output_symbol()),
+                fst::LogArc(tr_it->get_input_number(),
+                            tr_it->get_output_number(),
                             tr_it->get_weight(),
                             hfst_state_to_state_id(tr_it->get_target_state(),
                                                    state_map, t)));
@@ -279,14 +287,6 @@ ConversionFunctions::hfst_basic_transducer_to_log_ofst(
                     it->second);
     }
 
-    // Add also symbols that do not occur in transitions
-    for (HfstBasicTransducer::HfstAlphabet::const_iterator it
-         = net->alphabet.begin();
-         it != net->alphabet.end(); it++)
-    {
-        st.AddSymbol(*it);
-    }
-
     t->SetInputSymbols(&st);
     return t;
 }
-- 
2.43.0


From f614c953b6a31411aea6a0b9321e35e71dceb915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 04/65] fix: optionalize, repeat and project log OpenFst
 transducers like tropical ones

Union and Concat were called before the symbol tables were made equal (OpenFst
ends the process), and projections left unknown:unknown transitions.
---
 .../implementations/LogWeightTransducer.cc    | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/libhfst/src/implementations/LogWeightTransducer.cc b/libhfst/src/implementations/LogWeightTransducer.cc
index d2ec0fd..9e74428 100644
--- a/libhfst/src/implementations/LogWeightTransducer.cc
+++ b/libhfst/src/implementations/LogWeightTransducer.cc
@@ -1503,11 +1503,12 @@ LogWeightTransducer::repeat_n(LogFst *t, unsigned int n)
     }
 
     LogFst *repetition = create_epsilon_transducer();
+    repetition->SetInputSymbols(t->InputSymbols());
+    repetition->SetOutputSymbols(t->OutputSymbols());
     for (unsigned int i = 0; i < n; ++i)
     {
         Concat(repetition, *t);
     }
-    repetition->SetInputSymbols(t->InputSymbols());
     return repetition;
 }
 
@@ -1520,13 +1521,14 @@ LogWeightTransducer::repeat_le_n(LogFst *t, unsigned int n)
     }
 
     LogFst *repetition = create_epsilon_transducer();
+    repetition->SetInputSymbols(t->InputSymbols());
+    repetition->SetOutputSymbols(t->OutputSymbols());
     for (unsigned int i = 0; i < n; ++i)
     {
         LogFst *optional_t = optionalize(t);
         Concat(repetition, *optional_t);
         delete optional_t;
     }
-    repetition->SetInputSymbols(t->InputSymbols());
     return repetition;
 }
 
@@ -1534,8 +1536,9 @@ LogFst *
 LogWeightTransducer::optionalize(LogFst *t)
 {
     LogFst *eps = create_epsilon_transducer();
-    Union(eps, *t);
     eps->SetInputSymbols(t->InputSymbols());
+    eps->SetOutputSymbols(t->OutputSymbols());
+    Union(eps, *t);
     return eps;
 }
 
@@ -1561,7 +1564,10 @@ LogWeightTransducer::reverse(LogFst *t)
 LogFst *
 LogWeightTransducer::extract_input_language(LogFst *t)
 {
-    LogFst *retval = new LogFst(ProjectFst<LogArc>(*t, ProjectType::INPUT));
+    LogFst *proj = new LogFst(ProjectFst<LogArc>(*t, ProjectType::INPUT));
+    // substitute unknown with identity
+    LogFst *retval = substitute(proj, 1, 2);
+    delete proj;
     retval->SetInputSymbols(t->InputSymbols());
     return retval;
 }
@@ -1569,7 +1575,10 @@ LogWeightTransducer::extract_input_language(LogFst *t)
 LogFst *
 LogWeightTransducer::extract_output_language(LogFst *t)
 {
-    LogFst *retval = new LogFst(ProjectFst<LogArc>(*t, ProjectType::OUTPUT));
+    LogFst *proj = new LogFst(ProjectFst<LogArc>(*t, ProjectType::OUTPUT));
+    // substitute unknown with identity
+    LogFst *retval = substitute(proj, 1, 2);
+    delete proj;
     retval->SetInputSymbols(t->InputSymbols());
     return retval;
 }
-- 
2.43.0


From 0b2ef18270a77eb4b80a04b8a60b47dc9432f539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:32 +0000
Subject: [PATCH 05/65] fix: invert the result of inverted compose-intersect
 with one rule too

---
 libhfst/src/HfstTransducer.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 62f5245..4e65758 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -5005,14 +5005,14 @@ HfstTransducer::compose_intersect(const HfstTransducerVector &v, bool invert,
         res.prune_alphabet();
         *this = HfstTransducer(res, type);
 
-        if (invert)
-        {
-            this->invert();
-        }
-
         delete rules;
     }
 
+    if (invert)
+    {
+        this->invert();
+    }
+
     delete harmonized_lexicon;
 
     this->substitute("||_IDENTITY_SYMBOL_||", internal_identity);
-- 
2.43.0


From 037a28afbd2f1e8877cad85b7b6148ad03329aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:32 +0000
Subject: [PATCH 06/65] fix: return the empty transducer from compose_intersect
 without rules

---
 libhfst/src/HfstTransducer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 4e65758..d068d18 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -4857,6 +4857,11 @@ HfstTransducer::compose_intersect(const HfstTransducerVector &v, bool invert,
     if (v.empty())
     {
         *this = HfstTransducer(type);
+        if (convert_to_openfst)
+        {
+            this->convert(FOMA_TYPE);
+        }
+        return *this;
     }
 
     const HfstTransducer &first = *v.begin();
-- 
2.43.0


From cb3cb22f677605730e5acc96f714898d9b87f4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:56 +0000
Subject: [PATCH 07/65] fix: keep known symbols in the result of shuffle

---
 libhfst/src/HfstTransducer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index d068d18..33bfc5e 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -4733,6 +4733,10 @@ HfstTransducer::shuffle(const HfstTransducer &another, bool)
     StringSet this_alphabet = this_basic.get_alphabet();
     StringSet another_alphabet = another_basic.get_alphabet();
 
+    // The result knows the symbols of both transducers
+    StringSet original_alphabet = this_alphabet;
+    original_alphabet.insert(another_alphabet.begin(), another_alphabet.end());
+
     // Encode first transducer, i.e. prefix each symbol with "@1"
     shuffle_coding_case = ENCODE_FIRST_SHUFFLE_ARGUMENT;
     this_basic.substitute(&code_symbols_for_shuffle);
@@ -4793,6 +4797,7 @@ HfstTransducer::shuffle(const HfstTransducer &another, bool)
     // also remember to remove the prefixed symbols from the alphabet
     this1_basic.remove_symbols_from_alphabet(this_alphabet);
     this1_basic.remove_symbols_from_alphabet(another_alphabet);
+    this1_basic.add_symbols_to_alphabet(original_alphabet);
 
     // Convert once again to HfstTransducer
     HfstTransducer this_finally(this1_basic, this->get_type());
-- 
2.43.0


From 56140d478a31b98b0bde38ea9b40439e971d5b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:58 +0000
Subject: [PATCH 08/65] fix: prune a tropical transducer by connecting it, not
 by dropping paths

---
 libhfst/src/implementations/TropicalWeightTransducer.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/implementations/TropicalWeightTransducer.cc b/libhfst/src/implementations/TropicalWeightTransducer.cc
index 00f067f..e846994 100644
--- a/libhfst/src/implementations/TropicalWeightTransducer.cc
+++ b/libhfst/src/implementations/TropicalWeightTransducer.cc
@@ -2042,8 +2042,12 @@ TropicalWeightTransducer::remove_epsilons(StdVectorFst *t)
 StdVectorFst *
 TropicalWeightTransducer::prune(StdVectorFst *t)
 {
-    StdVectorFst *retval = new StdVectorFst();
-    fst::Prune(*t, retval, TropicalWeight::One());
+    StdVectorFst *retval = t->Copy();
+    fst::Connect(retval);
+    if (retval->Start() == fst::kNoStateId)
+    {
+        retval->SetStart(retval->AddState());
+    }
     return retval;
 }
 
-- 
2.43.0


From f83ad0a114c00bd9d4d6f0eea5c724938ac18b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:58 +0000
Subject: [PATCH 09/65] fix: keep the implementation type in prune

---
 libhfst/src/HfstTransducer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 33bfc5e..7b8a7a5 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -2186,6 +2186,7 @@ HfstTransducer::prune()
 {
 #if HAVE_OPENFST
     // slow for xfsm type...
+    ImplementationType original_type = this->type;
     this->convert(TROPICAL_OPENFST_TYPE);
     fst::StdVectorFst *temp
         = hfst::implementations::TropicalWeightTransducer::prune(
@@ -2193,6 +2194,7 @@ HfstTransducer::prune()
     this->tropical_ofst_interface.delete_transducer(
         this->implementation.tropical_ofst);
     this->implementation.tropical_ofst = temp;
+    this->convert(original_type);
     return *this;
 #endif
     HFST_THROW(FunctionNotImplementedException);
-- 
2.43.0


From f5e873ac2bf51723ffb6161159f73ef99612e2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:34 +0000
Subject: [PATCH 10/65] fix: compare weighted transducers whose initial state
 is on a cycle

---
 .../TropicalWeightTransducer.cc               | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/libhfst/src/implementations/TropicalWeightTransducer.cc b/libhfst/src/implementations/TropicalWeightTransducer.cc
index e846994..052f2d6 100644
--- a/libhfst/src/implementations/TropicalWeightTransducer.cc
+++ b/libhfst/src/implementations/TropicalWeightTransducer.cc
@@ -1648,6 +1648,28 @@ TropicalWeightTransducer::define_transducer(const std::string &isymbol,
     return t;
 }
 
+/* If the initial state is on a cycle, use a copy of it as the initial state.
+   Otherwise weight pushing (as in fst::Equivalent) would have to add an
+   epsilon transition. */
+static void
+make_initial_state_acyclic(StdVectorFst *t)
+{
+    if (t->Start() == fst::kNoStateId
+        || (t->Properties(fst::kInitialAcyclic, true) & fst::kInitialAcyclic))
+    {
+        return;
+    }
+    StateId initial = t->AddState();
+    for (fst::ArcIterator<StdVectorFst> aiter(*t, t->Start()); !aiter.Done();
+         aiter.Next())
+    {
+        const StdArc arc = aiter.Value();
+        t->AddArc(initial, arc);
+    }
+    t->SetFinal(initial, t->Final(t->Start()));
+    t->SetStart(initial);
+}
+
 bool
 TropicalWeightTransducer::are_equivalent(StdVectorFst *a_, StdVectorFst *b_)
 {
@@ -1677,6 +1699,9 @@ TropicalWeightTransducer::are_equivalent(StdVectorFst *a_, StdVectorFst *b_)
     delete a;
     delete b;
 
+    make_initial_state_acyclic(deta);
+    make_initial_state_acyclic(detb);
+
     bool retval = Equivalent(*deta, *detb);
 
     delete deta;
-- 
2.43.0


From 0b560adff67ce455bc5ea86e43152b02e31571ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:23 +0000
Subject: [PATCH 11/65] fix: do not carry header properties over to the next
 transducer of a stream

---
 libhfst/src/HfstInputStream.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libhfst/src/HfstInputStream.cc b/libhfst/src/HfstInputStream.cc
index e262f77..d1a8b36 100644
--- a/libhfst/src/HfstInputStream.cc
+++ b/libhfst/src/HfstInputStream.cc
@@ -661,6 +661,10 @@ namespace hfst
   void HfstInputStream::process_header_data
   (StringPairVector &header_data, bool )
   {
+    // forget what the header of the previous transducer said
+    name = "";
+    props.clear();
+
     if (header_data.size() < 2) {
       HFST_THROW_MESSAGE(TransducerHeaderException,
                          "Hfst header has too few attributes");
-- 
2.43.0


From af369273171c6dbd16e48ed556a3c6fc36f4c754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:33 +0000
Subject: [PATCH 12/65] fix: do not read past the index table of
 optimized-lookup transducers

---
 libhfst/src/implementations/optimized-lookup/transducer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/implementations/optimized-lookup/transducer.cc b/libhfst/src/implementations/optimized-lookup/transducer.cc
index 7919015..4381e4c 100644
--- a/libhfst/src/implementations/optimized-lookup/transducer.cc
+++ b/libhfst/src/implementations/optimized-lookup/transducer.cc
@@ -919,7 +919,9 @@ TransitionTableIndexSet Transducer::get_transitions_from_state(
                     }
                     ++transition_i;
                 }
-            } else { // not a flag
+            } else if (state_index+1+symbol < header->index_table_size()) {
+                // not a flag; symbols that are never used as input may lie
+                // outside the index table
                 const TransitionIndex& test_transition_index =
                     get_index(state_index+1+symbol);
                 if(test_transition_index.matches(symbol)) {
-- 
2.43.0


From 9f1d917403aa7ff73a9734dd87f8cd811272cabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:45 +0000
Subject: [PATCH 13/65] fix: read AT&T and prolog lines of any length, also
 from streams

---
 .../implementations/HfstBasicTransducer.cc    | 75 +++++++++++--------
 1 file changed, 43 insertions(+), 32 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 428312b..d5a074c 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -1385,6 +1385,29 @@ HfstBasicTransducer::strip_newlines(std::string &str)
     return str;
 }
 
+// Get a line of any length from \a is (if \a file == NULL) or from \a file.
+// Return whether there was a line.
+static bool
+get_whole_line(std::istream &is, FILE *file, std::string &line)
+{
+    line.clear();
+    if (file == NULL)
+    { /* we use streams */
+        return (bool)std::getline(is, line);
+    }
+    /* we use FILEs */
+    char part[255];
+    while (fgets(part, 255, file) != NULL)
+    {
+        line.append(part);
+        if (line[line.length() - 1] == '\n')
+        {
+            return true;
+        }
+    }
+    return !line.empty();
+}
+
 // Try to get a line from \a is (if \a file == NULL)
 // or from \a file. If successfull, strip the line from newlines,
 // increment \a linecount by one and return the line.
@@ -1393,21 +1416,12 @@ std::string
 HfstBasicTransducer::get_stripped_line(std::istream &is, FILE *file,
                                        unsigned int &linecount)
 {
-    char line[255];
+    std::string linestr;
 
-    if (file == NULL)
-    { /* we use streams */
-        if (!is.getline(line, 255).eof())
-            HFST_THROW(EndOfStreamException);
-    }
-    else
-    { /* we use FILEs */
-        if (NULL == fgets(line, 255, file))
-            HFST_THROW(EndOfStreamException);
-    }
+    if (!get_whole_line(is, file, linestr))
+        HFST_THROW(EndOfStreamException);
     linecount++;
 
-    std::string linestr(line);
     return strip_newlines(linestr);
 }
 
@@ -1723,13 +1737,19 @@ HfstBasicTransducer::add_att_line(char *line,
                                   bool warn_negs)
 {
     // scan one line that can have a maximum of five fields
-    char a1[100];
-    char a2[100];
-    char a3[100];
-    char a4[100];
-    char a5[100];
+    std::istringstream fields(line);
+    std::string f[5];
     // how many fields could be parsed
-    int n = sscanf(line, "%s%s%s%s%s", a1, a2, a3, a4, a5);
+    int n = 0;
+    while (n < 5 && fields >> f[n])
+    {
+        ++n;
+    }
+    const char *a1 = f[0].c_str();
+    const char *a2 = f[1].c_str();
+    const char *a3 = f[2].c_str();
+    const char *a4 = f[3].c_str();
+    const char *a5 = f[4].c_str();
 
     // set value of weight
     float weight = 0;
@@ -1816,24 +1836,15 @@ HfstBasicTransducer::read_in_att_format(std::istream &is, FILE *file,
     }
 
     HfstBasicTransducer retval;
-    char line[255];
+    std::string linestr;
     while (true)
     {
 
-        if (file == NULL)
-        { /* we use streams */
-            if (!is.getline(line, 255).eof())
-            {
-                break;
-            }
-        }
-        else
-        { /* we use FILEs */
-            if (NULL == fgets(line, 255, file))
-            {
-                break;
-            }
+        if (!get_whole_line(is, file, linestr))
+        {
+            break;
         }
+        char *line = &linestr[0];
 
         linecount++;
 
-- 
2.43.0


From cc336c2c877784767b7e85b073f5a3e0b5498f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:45 +0000
Subject: [PATCH 14/65] fix: write AT&T format without weights to a buffer
 without gaps

---
 libhfst/src/implementations/HfstBasicTransducer.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index d5a074c..a270746 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -1677,8 +1677,10 @@ HfstBasicTransducer::write_in_att_format(char *ptr,
             cwt = cwt + cw;
 
             if (write_weights)
+            {
                 cw = sprintf(ptr + cwt, "\t%f", data.get_weight());
-            cwt = cwt + cw;
+                cwt = cwt + cw;
+            }
             cw = sprintf(ptr + cwt, "\n");
             cwt = cwt + cw;
         }
@@ -1687,9 +1689,11 @@ HfstBasicTransducer::write_in_att_format(char *ptr,
             cw = sprintf(ptr + cwt, "%i", source_state);
             cwt = cwt + cw;
             if (write_weights)
+            {
                 cw = sprintf(ptr + cwt, "\t%f",
                              get_final_weight(source_state));
-            cwt = cwt + cw;
+                cwt = cwt + cw;
+            }
             cw = sprintf(ptr + cwt, "\n");
             cwt = cwt + cw;
         }
-- 
2.43.0


From 0666294586378e939ecd0c17940dade9af041968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:45 +0000
Subject: [PATCH 15/65] fix: write every final state once in numeric AT&T
 format

---
 .../src/implementations/HfstBasicTransducer.cc    | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index a270746..df0112d 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -1722,14 +1722,13 @@ HfstBasicTransducer::write_in_att_format_number(FILE *file,
             if (write_weights)
                 fprintf(file, "\t%f", data.get_weight());
             fprintf(file, "\n");
-
-            if (is_final_state(source_state))
-            {
-                fprintf(file, "%i", source_state);
-                if (write_weights)
-                    fprintf(file, "\t%f", get_final_weight(source_state));
-                fprintf(file, "\n");
-            }
+        }
+        if (is_final_state(source_state))
+        {
+            fprintf(file, "%i", source_state);
+            if (write_weights)
+                fprintf(file, "\t%f", get_final_weight(source_state));
+            fprintf(file, "\n");
         }
         source_state++;
     }
-- 
2.43.0


From f5d34051aac6f74b781cb09da9fc16193e3f756b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:45 +0000
Subject: [PATCH 16/65] fix: parse prolog lines with long fields or white space
 in symbols

---
 .../implementations/HfstBasicTransducer.cc    | 66 ++++++++++---------
 1 file changed, 35 insertions(+), 31 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index df0112d..2357c1c 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -1097,12 +1097,12 @@ HfstBasicTransducer::parse_prolog_network_line(const std::string &line,
                                                HfstBasicTransducer &graph)
 {
     // 'network(NAME).'
-    char namearr[100];
-    int n = sscanf(line.c_str(), "network(%s", namearr);
+    std::vector<char> namearr(line.length() + 1);
+    int n = sscanf(line.c_str(), "network(%s", namearr.data());
     if (n != 1)
         return false;
 
-    std::string namestr(namearr);
+    std::string namestr(namearr.data());
     // strip the ending ")." from namestr
     if (!strip_ending_parenthesis_and_comma(namestr))
         return false;
@@ -1243,33 +1243,35 @@ HfstBasicTransducer::parse_prolog_arc_line(const std::string &line,
                                            HfstBasicTransducer &graph)
 {
     // symbolstr can also contain the weight
-    char namestr[100];
-    char sourcestr[100];
-    char targetstr[100];
-    char symbolstr[100];
+    std::vector<char> namestr(line.length() + 1);
+    std::vector<char> sourcestr(line.length() + 1);
+    std::vector<char> targetstr(line.length() + 1);
+    std::vector<char> symbolstr(line.length() + 1);
 
-    int n = sscanf(line.c_str(), "arc(%[^,], %[^,], %[^,], %[^\t\n]", namestr,
-                   sourcestr, targetstr, symbolstr);
+    int n = sscanf(line.c_str(), "arc(%[^,], %[^,], %[^,], %[^\n]",
+                   namestr.data(), sourcestr.data(), targetstr.data(),
+                   symbolstr.data());
 
-    std::string symbol(symbolstr);
-
-    // strip the ending ")." from symbolstr
-    if (!strip_ending_parenthesis_and_comma(symbol))
+    if (n != 4)
     {
         return false;
     }
 
-    if (n != 4)
+    std::string symbol(symbolstr.data());
+
+    // strip the ending ")." from symbolstr
+    if (!strip_ending_parenthesis_and_comma(symbol))
     {
         return false;
     }
-    if (std::string(namestr) != graph.name)
+
+    if (std::string(namestr.data()) != graph.name)
     {
         return false;
     }
 
-    unsigned int source = atoi(sourcestr);
-    unsigned int target = atoi(targetstr);
+    unsigned int source = atoi(sourcestr.data());
+    unsigned int target = atoi(targetstr.data());
 
     // handle the weight that might be included in symbol string
     float weight = 0;
@@ -1294,9 +1296,9 @@ HfstBasicTransducer::parse_prolog_final_line(const std::string &line,
                                              HfstBasicTransducer &graph)
 {
     // 'final(NAME, number).' or 'final(NAME, number, weight).'
-    char namestr[100];
-    char finalstr[100];
-    char weightstr[100];
+    std::vector<char> namestr(line.length() + 1);
+    std::vector<char> finalstr(line.length() + 1);
+    std::vector<char> weightstr(line.length() + 1);
     float weight = 0;
 
     unsigned int number_of_commas = 0;
@@ -1310,7 +1312,8 @@ HfstBasicTransducer::parse_prolog_final_line(const std::string &line,
     if (number_of_commas == 1)
     {
         int n
-            = sscanf(line.c_str(), "final(%[^,], %[^)]).", namestr, finalstr);
+            = sscanf(line.c_str(), "final(%[^,], %[^)]).", namestr.data(),
+                     finalstr.data());
         if (n != 2)
         {
             return false;
@@ -1318,13 +1321,13 @@ HfstBasicTransducer::parse_prolog_final_line(const std::string &line,
     }
     else if (number_of_commas == 2)
     {
-        int n = sscanf(line.c_str(), "final(%[^,], %[^,], %[^)]).", namestr,
-                       finalstr, weightstr);
+        int n = sscanf(line.c_str(), "final(%[^,], %[^,], %[^)]).",
+                       namestr.data(), finalstr.data(), weightstr.data());
         if (n != 3)
         {
             return false;
         }
-        std::istringstream buffer(weightstr);
+        std::istringstream buffer(weightstr.data());
         buffer >> weight;
         if (buffer.fail()) // a float could not be read
         {
@@ -1336,10 +1339,10 @@ HfstBasicTransducer::parse_prolog_final_line(const std::string &line,
         return false;
     }
 
-    if (std::string(namestr) != graph.name)
+    if (std::string(namestr.data()) != graph.name)
         return false;
 
-    graph.set_final_weight(atoi(finalstr), weight);
+    graph.set_final_weight(atoi(finalstr.data()), weight);
     return true;
 }
 
@@ -1348,15 +1351,16 @@ HfstBasicTransducer::parse_prolog_symbol_line(const std::string &line,
                                               HfstBasicTransducer &graph)
 {
     // 'symbol(NAME, "foo").'
-    char namearr[100];
-    char symbolarr[100];
-    int n = sscanf(line.c_str(), "symbol(%[^,], %s", namearr, symbolarr);
+    std::vector<char> namearr(line.length() + 1);
+    std::vector<char> symbolarr(line.length() + 1);
+    int n = sscanf(line.c_str(), "symbol(%[^,], %[^\n]", namearr.data(),
+                   symbolarr.data());
 
     if (n != 2)
         return false;
 
-    std::string namestr(namearr);
-    std::string symbolstr(symbolarr);
+    std::string namestr(namearr.data());
+    std::string symbolstr(symbolarr.data());
 
     if (namestr != graph.name)
         return false;
-- 
2.43.0


From 8ddbd9a01b3c478dfee77cf752d3fd0410e92b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:45 +0000
Subject: [PATCH 17/65] fix: unescape backslashes in prolog symbols

---
 .../implementations/HfstBasicTransducer.cc    | 28 +++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 2357c1c..c8b90ec 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -906,10 +906,17 @@ HfstBasicTransducer::deprologize_symbol(const std::string &symbol)
     if (symbol == "?")
         return "@_UNKNOWN_SYMBOL_@";
     // remove the escaping backslash in front of a double quote and
-    // a double quote
-    std::string retval(symbol);
-    replace_all(retval, "\\\"", "\"");
-    replace_all(retval, "\\\\", "\\");
+    // a backslash
+    std::string retval;
+    for (size_t i = 0; i < symbol.length(); i++)
+    {
+        if (symbol[i] == '\\' && i + 1 < symbol.length()
+            && (symbol[i + 1] == '"' || symbol[i + 1] == '\\'))
+        {
+            i++;
+        }
+        retval.append(1, symbol[i]);
+    }
     return retval;
 }
 
@@ -1111,8 +1118,8 @@ HfstBasicTransducer::parse_prolog_network_line(const std::string &line,
     return true;
 }
 
-// Get positions of \a c in \a str. If \a esc is precedes
-// \a c, \a c is not included.
+// Get positions of \a c in \a str. If \a c is escaped, i.e. preceded by an
+// odd number of \a esc, it is not included.
 std::vector<unsigned int>
 HfstBasicTransducer::get_positions_of_unescaped_char(const std::string &str,
                                                      char c, char esc)
@@ -1122,11 +1129,10 @@ HfstBasicTransducer::get_positions_of_unescaped_char(const std::string &str,
     {
         if (str[i] == c)
         {
-            if (i == 0)
-                retval.push_back(i);
-            else if (str[i - 1] == esc)
-                ; // skip escaped chars
-            else
+            unsigned int escapes = 0;
+            while (escapes < i && str[i - 1 - escapes] == esc)
+                escapes++;
+            if (escapes % 2 == 0) // skip escaped chars
                 retval.push_back(i);
         }
     }
-- 
2.43.0


From 9c101a5a0daff650cdb43c246e795797cb8ed807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:10 +0000
Subject: [PATCH 18/65] fix: look up symbols known only on the output side as
 known symbols, and detect loops properly

---
 .../optimized-lookup/find_epsilon_loops.cc    | 42 +++++++++++++++----
 .../optimized-lookup/transducer.cc            | 18 ++++----
 2 files changed, 46 insertions(+), 14 deletions(-)

diff --git a/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc b/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc
index e759db9..78adfef 100644
--- a/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc
+++ b/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc
@@ -73,13 +73,15 @@ void Transducer::find_loop_epsilon_transitions(
                     *(alphabet->get_operation(
                           tables->get_transition_input(i))))) {
                 // flag diacritic allowed
-                if (traversal_states.count(epsilon_reachable) == 1) {
+                TraversalState flag_reachable(target,
+                                              flag_state.get_values());
+                if (traversal_states.count(flag_reachable) == 1) {
                     // We've been here before
                     throw true;
                 }
-                traversal_states.insert(epsilon_reachable);
+                traversal_states.insert(flag_reachable);
                 find_loop(input_pos, target);
-                traversal_states.erase(epsilon_reachable);
+                traversal_states.erase(flag_reachable);
             }
             flag_state.assign_values(flags);
             ++i;
@@ -109,8 +111,10 @@ void Transducer::find_loop_transitions(SymbolNumber input,
     while (tables->get_transition_input(i) != NO_SYMBOL_NUMBER) {
         if (tables->get_transition_input(i) == input) {
             // We're not going to find an epsilon / flag loop
-            traversal_states.clear();
+            TraversalStates old_states;
+            old_states.swap(traversal_states);
             find_loop(input_pos, tables->get_transition_target(i));
+            traversal_states.swap(old_states);
             found_transition = true;
         } else {
             return;
@@ -123,7 +127,9 @@ void Transducer::find_loop_index(SymbolNumber input,
                                       unsigned int input_pos,
                                       TransitionTableIndex i)
 {
-    if (tables->get_index_input(i+input) == input)
+    // states have index entries for symbols on the input side only
+    if (input < header->input_symbol_count() &&
+        tables->get_index_input(i+input) == input)
     {
         find_loop_transitions(input,
                               input_pos,
@@ -155,7 +161,18 @@ void Transducer::find_loop(unsigned int input_pos,
         SymbolNumber input = input_tape[input_pos];
         ++input_pos;
 
-        find_loop_transitions(input, input_pos, i+1);
+        if (input < alphabet->get_orig_symbol_count()) {
+            find_loop_transitions(input, input_pos, i+1);
+        } else {
+            if (alphabet->get_identity_symbol() != NO_SYMBOL_NUMBER) {
+                find_loop_transitions(alphabet->get_identity_symbol(),
+                                      input_pos, i+1);
+            }
+            if (alphabet->get_unknown_symbol() != NO_SYMBOL_NUMBER) {
+                find_loop_transitions(alphabet->get_unknown_symbol(),
+                                      input_pos, i+1);
+            }
+        }
         if (alphabet->get_default_symbol() != NO_SYMBOL_NUMBER &&
             !found_transition) {
             find_loop_transitions(alphabet->get_default_symbol(),
@@ -174,7 +191,18 @@ void Transducer::find_loop(unsigned int input_pos,
         SymbolNumber input = input_tape[input_pos];
         ++input_pos;
 
-        find_loop_index(input, input_pos, i+1);
+        if (input < alphabet->get_orig_symbol_count()) {
+            find_loop_index(input, input_pos, i+1);
+        } else {
+            if (alphabet->get_identity_symbol() != NO_SYMBOL_NUMBER) {
+                find_loop_index(alphabet->get_identity_symbol(),
+                                input_pos, i+1);
+            }
+            if (alphabet->get_unknown_symbol() != NO_SYMBOL_NUMBER) {
+                find_loop_index(alphabet->get_unknown_symbol(),
+                                input_pos, i+1);
+            }
+        }
         // If we have a default symbol defined and we didn't find an index,
         // check for that
         if (alphabet->get_default_symbol() != NO_SYMBOL_NUMBER && !found_transition) {
diff --git a/libhfst/src/implementations/optimized-lookup/transducer.cc b/libhfst/src/implementations/optimized-lookup/transducer.cc
index 4381e4c..658dbc8 100644
--- a/libhfst/src/implementations/optimized-lookup/transducer.cc
+++ b/libhfst/src/implementations/optimized-lookup/transducer.cc
@@ -485,7 +485,7 @@ void Transducer::try_epsilon_transitions(unsigned int input_pos,
             if (flag_state.apply_operation(
                     *(alphabet->get_operation(input)))) {
                 // flag diacritic allowed
-                TraversalState flag_reachable(target, flags);
+                TraversalState flag_reachable(target, flag_state.get_values());
                 if (traversal_states.count(flag_reachable) == 1) {
                     // We've been here before at this input, back out
                     flag_state.assign_values(flags);
@@ -535,7 +535,8 @@ void Transducer::find_transitions(SymbolNumber input,
         {
             Weight old_weight = current_weight;
             // We're not going to find an epsilon / flag loop
-            traversal_states.clear();
+            TraversalStates old_states;
+            old_states.swap(traversal_states);
             SymbolNumber output = tables->get_transition_output(i);
             if (alphabet->is_meta_arc(output)) {
                 // we got here via default, identity or unknown, so look
@@ -548,6 +549,7 @@ void Transducer::find_transitions(SymbolNumber input,
                          output_pos + 1,
                          tables->get_transition_target(i));
             current_weight = old_weight;
+            traversal_states.swap(old_states);
             found_transition = true;
         }
         else
@@ -563,7 +565,9 @@ void Transducer::find_index(SymbolNumber input,
                             unsigned int output_pos,
                             TransitionTableIndex i)
 {
-    if (tables->get_index_input(i+input) == input)
+    // states have index entries for symbols on the input side only
+    if (input < header->input_symbol_count() &&
+        tables->get_index_input(i+input) == input)
     {
         find_transitions(input,
                          input_pos,
@@ -725,7 +729,7 @@ Transducer::Transducer(std::istream& is):
     alphabet(new TransducerAlphabet(is, header->symbol_count())),
     tables(NULL), current_weight(0.0), lookup_paths(NULL),
     encoder(new Encoder(alphabet->get_symbol_table(),
-                        header->input_symbol_count())),
+                        alphabet->get_orig_symbol_count())),
     input_tape(), output_tape(),
     flag_state(alphabet->get_fd_table()), found_transition(false), max_lookups(-1),
     recursion_depth_left(MAX_RECURSION_DEPTH)
@@ -740,7 +744,7 @@ Transducer::Transducer(bool weighted):
     current_weight(0.0),
     lookup_paths(NULL),
     encoder(new Encoder(alphabet->get_symbol_table(),
-                        header->input_symbol_count())),
+                        alphabet->get_orig_symbol_count())),
     input_tape(), output_tape(),
     flag_state(alphabet->get_fd_table()), found_transition(false),
     max_lookups(-1), recursion_depth_left(MAX_RECURSION_DEPTH)
@@ -762,7 +766,7 @@ Transducer::Transducer(const TransducerHeader& header,
     current_weight(0.0),
     lookup_paths(NULL),
     encoder(new Encoder(alphabet.get_symbol_table(),
-                        header.input_symbol_count())),
+                        alphabet.get_orig_symbol_count())),
     input_tape(), output_tape(),
     flag_state(alphabet.get_fd_table()), found_transition(false), max_lookups(-1),
     recursion_depth_left(MAX_RECURSION_DEPTH)
@@ -779,7 +783,7 @@ Transducer::Transducer(const TransducerHeader& header,
     current_weight(0.0),
     lookup_paths(NULL),
     encoder(new Encoder(alphabet.get_symbol_table(),
-                        header.input_symbol_count())),
+                        alphabet.get_orig_symbol_count())),
     input_tape(), output_tape(),
     flag_state(alphabet.get_fd_table()), found_transition(false), max_lookups(-1),
     recursion_depth_left(MAX_RECURSION_DEPTH)
-- 
2.43.0


From c57e8991bd58518404ad4f36f96c28728ee77658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:16 +0000
Subject: [PATCH 19/65] fix: do not store symbols of looked-up strings with
 optimized-lookup transducers

---
 .../implementations/ConvertOlTransducer.cc    |  7 +++---
 .../src/implementations/HfstOlTransducer.cc   |  4 +++-
 .../optimized-lookup/transducer.cc            | 22 +++++++++++--------
 .../optimized-lookup/transducer.h             | 11 ++++++----
 4 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/libhfst/src/implementations/ConvertOlTransducer.cc b/libhfst/src/implementations/ConvertOlTransducer.cc
index 00bd4f7..035ea2b 100644
--- a/libhfst/src/implementations/ConvertOlTransducer.cc
+++ b/libhfst/src/implementations/ConvertOlTransducer.cc
@@ -83,9 +83,10 @@ unsigned int hfst_ol_to_hfst_basic_add_state
       bool weighted = t->get_header().probe_flag(hfst_ol::Weighted);
       const hfst_ol::SymbolTable& symbols
         = t->get_alphabet().get_symbol_table();
-      for (hfst_ol::SymbolTable::const_iterator it = symbols.begin();
-           it != symbols.end(); ++it) {
-          basic->add_symbol_to_alphabet(*it);
+      // symbols added by lookups are not part of the transducer
+      for (hfst_ol::SymbolNumber i = 0;
+           i < t->get_alphabet().get_orig_symbol_count(); ++i) {
+          basic->add_symbol_to_alphabet(symbols[i]);
       }
       
       /* This contains indices to either (1) the start of a set of entries
diff --git a/libhfst/src/implementations/HfstOlTransducer.cc b/libhfst/src/implementations/HfstOlTransducer.cc
index c87475f..38b2533 100644
--- a/libhfst/src/implementations/HfstOlTransducer.cc
+++ b/libhfst/src/implementations/HfstOlTransducer.cc
@@ -445,7 +445,9 @@ void HfstOlInputStream::ignore(unsigned int n)
 StringSet HfstOlTransducer::get_alphabet(hfst_ol::Transducer * t)
 {
     hfst_ol::SymbolTable symbol_table = t->get_alphabet().get_symbol_table();
-    return StringSet(symbol_table.begin(), symbol_table.end());
+    // symbols added by lookups are not part of the transducer
+    return StringSet(symbol_table.begin(), symbol_table.begin() +
+                     t->get_alphabet().get_orig_symbol_count());
 }
 
 }
diff --git a/libhfst/src/implementations/optimized-lookup/transducer.cc b/libhfst/src/implementations/optimized-lookup/transducer.cc
index 658dbc8..298a17b 100644
--- a/libhfst/src/implementations/optimized-lookup/transducer.cc
+++ b/libhfst/src/implementations/optimized-lookup/transducer.cc
@@ -71,6 +71,13 @@ void TransducerAlphabet::add_symbol(const std::string & symbol)
     symbol_table.push_back(symbol);
 }
 
+void TransducerAlphabet::include_symbol(const std::string & symbol)
+{
+    symbol_table.resize(orig_symbol_count);
+    symbol_table.push_back(symbol);
+    orig_symbol_count = hfst::size_t_to_uint(symbol_table.size());
+}
+
 TransducerAlphabet::TransducerAlphabet(const SymbolTable& st):
     symbol_table(st)
 {
@@ -344,17 +351,14 @@ bool Transducer::initialize_input(const char * input)
 
 void Transducer::include_symbol_in_alphabet(const std::string & sym)
 {
-    SymbolNumber key = alphabet->symbol_from_string(sym);
-    if (key != NO_SYMBOL_NUMBER) {
+    if (alphabet->symbol_from_string(sym) < alphabet->get_orig_symbol_count()) {
         return;
     }
-    key = hfst::size_t_to_uint(alphabet->get_symbol_table().size());
-    alphabet->add_symbol(sym);
-    char * cstr_for_encoder = new char[sym.size() + 1];
-    //std::strcpy(cstr_for_encoder, sym.c_str());
-    strcpy(cstr_for_encoder, sym.c_str());
-    encoder->read_input_symbol(cstr_for_encoder, key);
-    delete[] cstr_for_encoder;
+    alphabet->include_symbol(sym);
+    header->increment_symbol_count();
+    delete encoder;
+    encoder = new Encoder(alphabet->get_symbol_table(),
+                          alphabet->get_orig_symbol_count());
 }
 
 HfstOneLevelPaths * Transducer::lookup_fd(const StringVector & s, ssize_t limit,
diff --git a/libhfst/src/implementations/optimized-lookup/transducer.h b/libhfst/src/implementations/optimized-lookup/transducer.h
index 0df910f..994af89 100644
--- a/libhfst/src/implementations/optimized-lookup/transducer.h
+++ b/libhfst/src/implementations/optimized-lookup/transducer.h
@@ -248,7 +248,7 @@ public:
         return number_of_input_symbols;
     }
     void increment_symbol_count(void)
-        {++number_of_symbols; ++number_of_input_symbols;}
+        {++number_of_symbols;}
   
     TransitionTableIndex index_table_size(void) const
         { return size_of_transition_index_table; }
@@ -407,10 +407,10 @@ public:
   
     void write(std::ostream& os) const
         {
-            for(SymbolTable::const_iterator i = symbol_table.begin();
-                i != symbol_table.end(); i++)
+            // symbols added by lookups are not part of the transducer
+            for(SymbolNumber i = 0; i < orig_symbol_count; i++)
             {
-                os << *i;
+                os << symbol_table[i];
                 os.put('\0');
             }
         }
@@ -454,6 +454,9 @@ public:
         { return orig_symbol_count; }
     virtual void add_symbol(char * symbol);
     virtual void add_symbol(const std::string & symbol);
+    // add a symbol that belongs to the transducer, forgetting the symbols that
+    // have been added by lookups
+    void include_symbol(const std::string & symbol);
 
     
 };
-- 
2.43.0


From 9b91037e39fe243572cf0c4f5d4ab241369ec0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:17 +0000
Subject: [PATCH 20/65] fix: find out whether an optimized-lookup transducer is
 cyclic from its transitions

---
 .../src/implementations/HfstOlTransducer.cc   | 43 ++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/implementations/HfstOlTransducer.cc b/libhfst/src/implementations/HfstOlTransducer.cc
index 38b2533..3e38065 100644
--- a/libhfst/src/implementations/HfstOlTransducer.cc
+++ b/libhfst/src/implementations/HfstOlTransducer.cc
@@ -212,7 +212,48 @@ void HfstOlInputStream::ignore(unsigned int n)
   { return new hfst_ol::Transducer(weighted); }
   
   bool HfstOlTransducer::is_cyclic(hfst_ol::Transducer* t)
-  { return t->get_header().probe_flag(hfst_ol::Cyclic); }
+  {
+    if (t->get_header().probe_flag(hfst_ol::Cyclic))
+      return true;
+    // conversion does not set the flag in the header, so look for a cycle
+    typedef hfst_ol::TransitionTableIndex Index;
+    std::map<Index, bool> on_path; // visited states, whether on current path
+    std::vector<std::pair<Index, std::vector<Index> > > path;
+    Index state = 0;
+    while (true)
+      {
+        std::vector<Index> targets;
+        hfst_ol::TransitionTableIndexSet transitions
+          = t->get_transitions_from_state(state);
+        for (hfst_ol::TransitionTableIndexSet::const_iterator it
+               = transitions.begin(); it != transitions.end(); ++it)
+          targets.push_back(t->get_transition(*it).get_target());
+        on_path[state] = true;
+        path.push_back(std::make_pair(state, targets));
+
+        // find the next state to visit
+        bool found = false;
+        while (!found && !path.empty())
+          {
+            std::vector<Index> & rest = path.back().second;
+            if (rest.empty())
+              {
+                on_path[path.back().first] = false;
+                path.pop_back();
+                continue;
+              }
+            state = rest.back();
+            rest.pop_back();
+            std::map<Index, bool>::const_iterator it = on_path.find(state);
+            if (it == on_path.end())
+              found = true;
+            else if (it->second)
+              return true;
+          }
+        if (!found)
+          return false;
+      }
+  }
   
   static bool extract_paths
   (hfst_ol::Transducer* t, hfst_ol::TransitionTableIndex s,
-- 
2.43.0


From be82936280d63e149e3fe0799c032259f5f9d0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:17 +0000
Subject: [PATCH 21/65] fix: extract the empty path from log OpenFst and
 optimized-lookup transducers

---
 libhfst/src/implementations/HfstOlTransducer.cc |  1 -
 .../src/implementations/LogWeightTransducer.cc  | 17 +++++++----------
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/libhfst/src/implementations/HfstOlTransducer.cc b/libhfst/src/implementations/HfstOlTransducer.cc
index 3e38065..c4a2658 100644
--- a/libhfst/src/implementations/HfstOlTransducer.cc
+++ b/libhfst/src/implementations/HfstOlTransducer.cc
@@ -313,7 +313,6 @@ void HfstOlInputStream::ignore(unsigned int n)
     }
     */
     
-    if (spv.size() != 0)
       {
       // check for finality
       bool final=false;
diff --git a/libhfst/src/implementations/LogWeightTransducer.cc b/libhfst/src/implementations/LogWeightTransducer.cc
index 9e74428..2e12699 100644
--- a/libhfst/src/implementations/LogWeightTransducer.cc
+++ b/libhfst/src/implementations/LogWeightTransducer.cc
@@ -2201,17 +2201,14 @@ extract_paths(LogFst *t, LogArc::StateId s,
     }
     */
 
-    if (spv.size() != 0)
+    bool final = t->Final(s) != LogWeight::Zero();
+    hfst::HfstTwoLevelPath path(
+        weight_sum + (final ? t->Final(s).Value() : 0), spv);
+    hfst::ExtractStringsCb::RetVal ret = callback(path, final);
+    if (!ret.continueSearch || !ret.continuePath)
     {
-        bool final = t->Final(s) != LogWeight::Zero();
-        hfst::HfstTwoLevelPath path(
-            weight_sum + (final ? t->Final(s).Value() : 0), spv);
-        hfst::ExtractStringsCb::RetVal ret = callback(path, final);
-        if (!ret.continueSearch || !ret.continuePath)
-        {
-            path_visitations[s]--;
-            return ret.continueSearch;
-        }
+        path_visitations[s]--;
+        return ret.continueSearch;
     }
 
     // sort arcs by number of visitations
-- 
2.43.0


From 25bd3f19977a3e96a866be87cf2cdb262bc98c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:17 +0000
Subject: [PATCH 22/65] fix: give a random path cut back to its last final
 state the weight it had there

---
 libhfst/src/implementations/TropicalWeightTransducer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libhfst/src/implementations/TropicalWeightTransducer.cc b/libhfst/src/implementations/TropicalWeightTransducer.cc
index 052f2d6..0344cc4 100644
--- a/libhfst/src/implementations/TropicalWeightTransducer.cc
+++ b/libhfst/src/implementations/TropicalWeightTransducer.cc
@@ -3030,6 +3030,9 @@ random_path_(StdVectorFst *t)
        that \a last_index constitute the longest path that is recognized by
        transducer \a t so far. */
     int last_index = 0;
+    /* The weight of that path. */
+    float last_weight
+        = is_epsilon_path_accepted ? t->Final(t->Start()).Value() : 0;
 
     unsigned int num_states = t->NumStates();
 
@@ -3069,6 +3072,7 @@ random_path_(StdVectorFst *t)
             {
                 path.second.pop_back();
             }
+            path.first = last_weight;
             if (!is_epsilon_path_accepted && path.second.size() == 0)
                 throw "cannot extract random path";
             return path;
@@ -3100,6 +3104,7 @@ random_path_(StdVectorFst *t)
                     return path;
                 } // or continue.
                 last_index = (int)path.second.size();
+                last_weight = path.first + t->Final(t_target).Value();
             }
 
             /* Give more probability for shorter paths. */
-- 
2.43.0


From 4e92d719473988df0216c0314662a5704eea5412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:17 +0000
Subject: [PATCH 23/65] fix: do not extract the empty path after the callback
 has ended the search

---
 libhfst/src/implementations/FomaTransducer.cc           | 2 +-
 libhfst/src/implementations/SfstTransducer.cc           | 4 ++--
 libhfst/src/implementations/TropicalWeightTransducer.cc | 5 +++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/libhfst/src/implementations/FomaTransducer.cc b/libhfst/src/implementations/FomaTransducer.cc
index 21fc5a6..3ee01d7 100644
--- a/libhfst/src/implementations/FomaTransducer.cc
+++ b/libhfst/src/implementations/FomaTransducer.cc
@@ -708,7 +708,7 @@ namespace hfst { namespace implementations {
     }
     // add epsilon path, if needed
     for (std::set<int>::const_iterator it = initial_states.begin();
-         it != initial_states.end(); it++)
+         res && it != initial_states.end(); it++)
       {
         bool final_initial = false;
         for(int i=0; ((t->states)+i)->state_no != -1; i++)
diff --git a/libhfst/src/implementations/SfstTransducer.cc b/libhfst/src/implementations/SfstTransducer.cc
index fc1c0e3..fe83494 100644
--- a/libhfst/src/implementations/SfstTransducer.cc
+++ b/libhfst/src/implementations/SfstTransducer.cc
@@ -764,13 +764,13 @@ namespace hfst { namespace implementations {
       (1, hfst::FdState<Character>(*fd));
     
     StringPairVector spv;
-    hfst::implementations::extract_paths
+    bool more = hfst::implementations::extract_paths
       (t, t->root_node(), all_visitations, path_visitations,
        callback, cycles, fd_state_stack, filter_fd,
        spv);
 
     // add epsilon path, if needed
-    if (t->root_node() && t->root_node()->is_final()) {
+    if (more && t->root_node() && t->root_node()->is_final()) {
       StringPairVector empty_spv;
       HfstTwoLevelPath epsilon_path(0, empty_spv);
       callback(epsilon_path, true /* final*/);
diff --git a/libhfst/src/implementations/TropicalWeightTransducer.cc b/libhfst/src/implementations/TropicalWeightTransducer.cc
index 0344cc4..21cd737 100644
--- a/libhfst/src/implementations/TropicalWeightTransducer.cc
+++ b/libhfst/src/implementations/TropicalWeightTransducer.cc
@@ -2976,12 +2976,13 @@ TropicalWeightTransducer::extract_paths(StdVectorFst *t,
                              1, hfst::FdState<int64>(*fd));
 
     StringPairVector spv;
-    hfst::implementations::extract_paths(
+    bool more = hfst::implementations::extract_paths(
         t, t->Start(), all_visitations, path_visitations, 0.0f, callback,
         cycles, fd_state_stack, filter_fd, spv);
 
     // add epsilon path, if needed
-    if (t->Start() != -1 && t->Final(t->Start()) != TropicalWeight::Zero())
+    if (more && t->Start() != -1
+        && t->Final(t->Start()) != TropicalWeight::Zero())
     {
         StringPairVector empty_spv;
         HfstTwoLevelPath epsilon_path(t->Final(t->Start()).Value(), empty_spv);
-- 
2.43.0


From 21b359ddcb5141cd3d3a9255d91836872437cb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:12 +0000
Subject: [PATCH 24/65] fix: restriction: any symbol in the center must not
 match the boundary symbol

---
 libhfst/src/HfstXeroxRules.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libhfst/src/HfstXeroxRules.cc b/libhfst/src/HfstXeroxRules.cc
index 3e26d33..144a2fa 100644
--- a/libhfst/src/HfstXeroxRules.cc
+++ b/libhfst/src/HfstXeroxRules.cc
@@ -2872,6 +2872,8 @@ namespace hfst
         // [ U* %<D%> CENTER %<D%> U* ]
         HfstTransducer center(_center);
         center.insert_to_alphabet(restrictionMark);
+        // the boundary symbol is not matched by "any symbol"
+        center.insert_to_alphabet(".#.");
 
         HfstTransducer centerMarked(universalWithoutDStar);
         centerMarked.concatenate(mark)
-- 
2.43.0


From 23370563c71290bbbcdeebba1c2532c4aa8bdf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:12 +0000
Subject: [PATCH 25/65] fix: xre: {foo}:[bar] put the two sides of the cross
 product in the wrong order

---
 libhfst/src/parsers/xre_parse.yy | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libhfst/src/parsers/xre_parse.yy b/libhfst/src/parsers/xre_parse.yy
index 6a5d1c3..96422b1 100644
--- a/libhfst/src/parsers/xre_parse.yy
+++ b/libhfst/src/parsers/xre_parse.yy
@@ -999,11 +999,10 @@ REGEXP11: REGEXP12 { $$ = $1; }
         }
         // {foo}:[bar]
         | CURLY_BRACKETS PAIR_SEPARATOR LEFT_BRACKET REGEXP2 RIGHT_BRACKET {
-            HfstTransducer * tmp =
-                hfst::xre::xfst_curly_label_to_transducer($1,$1);
+            $$ = hfst::xre::xfst_curly_label_to_transducer($1,$1);
             free($1);
-            $$ = & $4->cross_product(*tmp);
-            delete tmp;
+            $$ = & $$->cross_product(*$4);
+            delete $4;
         }
         // [foo]:bar
         | LEFT_BRACKET REGEXP2 RIGHT_BRACKET PAIR_SEPARATOR HALFARC {
-- 
2.43.0


From 680ab2f54be118f14c28134d4dae91e789bd665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:12 +0000
Subject: [PATCH 26/65] fix: xre: ?:0 and 0:? also accepted the pair of empty
 strings

---
 libhfst/src/parsers/xre_utils.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/libhfst/src/parsers/xre_utils.cc b/libhfst/src/parsers/xre_utils.cc
index aafc469..c0d1499 100644
--- a/libhfst/src/parsers/xre_utils.cc
+++ b/libhfst/src/parsers/xre_utils.cc
@@ -936,16 +936,23 @@ xfst_label_to_transducer(const char *input, const char *output)
     {
         retval = new HfstTransducer(hfst::internal_unknown, output,
                                     hfst::xre::format);
-        HfstTransducer output_tr(output, output, hfst::xre::format);
-        retval->disjunct(output_tr)
-            .minimize(); // it should be safe to minimize
+        if (strcmp(output, hfst::internal_epsilon.c_str()) != 0)
+        {
+            HfstTransducer output_tr(output, output, hfst::xre::format);
+            retval->disjunct(output_tr)
+                .minimize(); // it should be safe to minimize
+        }
     }
     else if (output_is_unknown)
     {
         retval = new HfstTransducer(input, hfst::internal_unknown,
                                     hfst::xre::format);
-        HfstTransducer input_tr(input, input, hfst::xre::format);
-        retval->disjunct(input_tr).minimize(); // it should be safe to minimize
+        if (strcmp(input, hfst::internal_epsilon.c_str()) != 0)
+        {
+            HfstTransducer input_tr(input, input, hfst::xre::format);
+            retval->disjunct(input_tr)
+                .minimize(); // it should be safe to minimize
+        }
     }
     else
     {
-- 
2.43.0


From bcb626d7d29139e59fcfb50b9ff3a208b14302eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:12 +0000
Subject: [PATCH 27/65] fix: xre: treat a pair of unknown symbols as a
 non-identity pair

---
 libhfst/src/parsers/xre_utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhfst/src/parsers/xre_utils.cc b/libhfst/src/parsers/xre_utils.cc
index c0d1499..99f454e 100644
--- a/libhfst/src/parsers/xre_utils.cc
+++ b/libhfst/src/parsers/xre_utils.cc
@@ -1269,7 +1269,7 @@ has_non_identity_pairs(const HfstTransducer *t)
     StringPairSet sps = basic.get_transition_pairs();
     for (StringPairSet::const_iterator it = sps.begin(); it != sps.end(); it++)
     {
-        if (it->first != it->second)
+        if (it->first != it->second || it->first == hfst::internal_unknown)
         {
             return true;
         }
-- 
2.43.0


From 8bcec7869fd440f3fe395bc9b9881bd9b6c75119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:11 +0000
Subject: [PATCH 28/65] fix: xre: a missing @re file crashed instead of being
 reported

---
 libhfst/src/parsers/xre_parse.yy | 1 -
 1 file changed, 1 deletion(-)

diff --git a/libhfst/src/parsers/xre_parse.yy b/libhfst/src/parsers/xre_parse.yy
index 96422b1..8313598 100644
--- a/libhfst/src/parsers/xre_parse.yy
+++ b/libhfst/src/parsers/xre_parse.yy
@@ -1167,7 +1167,6 @@ REGEXP12: LABEL { $$ = $1; }
             if (f == NULL)
             {
                 xreerror("File cannot be opened.\n");
-                fclose(f);
                 free($1);
                 YYABORT;
             }
-- 
2.43.0


From 02c7fbb3e6a50aee7f9cf633d05b39ff001e5ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:36 +0000
Subject: [PATCH 29/65] fix: xre: lines over 999 bytes in @txt and @stxt files
 were cut

---
 libhfst/src/parsers/xre_parse.yy | 10 ++++------
 libhfst/src/parsers/xre_utils.cc | 20 ++++++++++++++++++++
 libhfst/src/parsers/xre_utils.h  |  6 ++++++
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/libhfst/src/parsers/xre_parse.yy b/libhfst/src/parsers/xre_parse.yy
index 8313598..aec84b7 100644
--- a/libhfst/src/parsers/xre_parse.yy
+++ b/libhfst/src/parsers/xre_parse.yy
@@ -1089,10 +1089,9 @@ REGEXP12: LABEL { $$ = $1; }
             {
                 HfstBasicTransducer tmp;
                 HfstTokenizer tok;
-                char line [1000];
-                while( fgets(line, 1000, f) != NULL )
+                std::string line;
+                while( hfst::xre::read_line(f, line) )
                 {
-                    hfst::xre::strip_newline(line);
                     StringPairVector spv = tok.tokenize(line, false); // XXX
                     tmp.disjunct(spv, 0);
                 }
@@ -1116,10 +1115,9 @@ REGEXP12: LABEL { $$ = $1; }
             {
                 HfstTokenizer tok;
                 HfstBasicTransducer tmp;
-                char line [1000];
-                while( fgets(line, 1000, f) != NULL )
+                std::string line;
+                while( hfst::xre::read_line(f, line) )
                 {
-                    hfst::xre::strip_newline(line);
                     StringPairVector spv =
                         HfstTokenizer::tokenize_space_separated(line);
                     tmp.disjunct(spv, 0);
diff --git a/libhfst/src/parsers/xre_utils.cc b/libhfst/src/parsers/xre_utils.cc
index 99f454e..916b17a 100644
--- a/libhfst/src/parsers/xre_utils.cc
+++ b/libhfst/src/parsers/xre_utils.cc
@@ -244,6 +244,26 @@ strip_newline(char *s)
     return s;
 }
 
+bool
+read_line(FILE *f, std::string &line)
+{
+    line.clear();
+    char buffer[1000];
+    bool found = false;
+    while (fgets(buffer, sizeof(buffer), f) != NULL)
+    {
+        found = true;
+        line += buffer;
+        size_t newline = line.find_first_of("\r\n");
+        if (newline != std::string::npos)
+        {
+            line.erase(newline);
+            break;
+        }
+    }
+    return found;
+}
+
 void
 count_lines(const char *s)
 {
diff --git a/libhfst/src/parsers/xre_utils.h b/libhfst/src/parsers/xre_utils.h
index aa45a50..54aba89 100644
--- a/libhfst/src/parsers/xre_utils.h
+++ b/libhfst/src/parsers/xre_utils.h
@@ -55,6 +55,12 @@ char* strip_percents(const char *s);
 
  char* strip_newline(char *s);
 
+/**
+ * @brief Read a line of any length from @a f into @a line, without its
+ *        newline. Return false if there are no more lines.
+ */
+bool read_line(FILE * f, std::string & line);
+
  void count_lines(const char * s);
 
 /**
-- 
2.43.0


From 978837b9f9614725f5c8903b51e1d591badb89fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:32 +0000
Subject: [PATCH 30/65] fix: foma functions crashed on transducers with states
 that cannot be reached

---
 .../implementations/ConvertFomaTransducer.cc  | 40 +++++++++++++++++--
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/libhfst/src/implementations/ConvertFomaTransducer.cc b/libhfst/src/implementations/ConvertFomaTransducer.cc
index a2ab9ec..8d07bcc 100644
--- a/libhfst/src/implementations/ConvertFomaTransducer.cc
+++ b/libhfst/src/implementations/ConvertFomaTransducer.cc
@@ -267,11 +267,44 @@ namespace hfst { namespace implementations
     h = fsm_construct_init(const_cast<char*>(emptystr));
     //free(emptystr);
 
+    // States that cannot be reached from the initial state are left out:
+    // foma's functions assume that there are none.
+    std::vector<int> number(hfst_fsm->get_max_state() + 1, -1);
+    std::vector<unsigned int> agenda(1, 0);
+    number[0] = 0;
+    while (! agenda.empty())
+      {
+        unsigned int state = agenda.back();
+        agenda.pop_back();
+        const HfstBasicTransitions & transitions
+          = hfst_fsm->transitions(state);
+        for (HfstBasicTransitions::const_iterator tr_it = transitions.begin();
+             tr_it != transitions.end(); tr_it++)
+          {
+            if (number[tr_it->get_target_state()] < 0)
+              {
+                number[tr_it->get_target_state()] = 0;
+                agenda.push_back(tr_it->get_target_state());
+              }
+          }
+      }
+    int states = 0;
+    for (size_t i = 0; i < number.size(); i++)
+      {
+        if (number[i] >= 0)
+          number[i] = states++;
+      }
+
     // ----- Go through all states -----
     unsigned int source_state=0;
     for (HfstBasicTransducer::const_iterator it = hfst_fsm->begin();
          it != hfst_fsm->end(); it++)
       {
+        if (number[source_state] < 0)
+          {
+            source_state++;
+            continue;
+          }
         // ----- Go through the set of transitions in each state -----
         for (HfstBasicTransitions::const_iterator tr_it
                = it->begin();
@@ -281,8 +314,8 @@ namespace hfst { namespace implementations
             const char * input = tr_it->get_transition_data().get_input_symbol().c_str();
             const char * output = tr_it->get_transition_data().get_output_symbol().c_str();
             fsm_construct_add_arc(h,
-                                  (int)source_state,
-                                  (int)tr_it->get_target_state(),
+                                  number[source_state],
+                                  number[tr_it->get_target_state()],
                                   const_cast<char *>(input),
                                   const_cast<char *>(output) );
             //free(input);
@@ -300,7 +333,8 @@ namespace hfst { namespace implementations
          it != hfst_fsm->final_weight_map.end(); it++)
       {
         // Set the state as final
-        fsm_construct_set_final(h, (int)it->first);
+        if (number[it->first] >= 0)
+          fsm_construct_set_final(h, number[it->first]);
       }
     // ----- final states gone through -----
 
-- 
2.43.0


From c8203df5ae6660a8f2b528b37b85f5897fd26397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:57 +0000
Subject: [PATCH 31/65] fix: substituting a symbol pair with a graph removed
 wrong transitions

---
 libhfst/src/implementations/HfstBasicTransducer.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index c8b90ec..945a023 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -2576,10 +2576,12 @@ HfstBasicTransducer::substitute(const HfstSymbolPair &sp,
         }
         // (all transitions in a state gone through)
 
-        // Remove the substituted transitions
-        for (auto &old_transition : old_transitions)
+        // Remove the substituted transitions, the last one first, as erasing
+        // invalidates iterators to the transitions that follow
+        while (!old_transitions.empty())
         {
-            it.erase(old_transition);
+            it.erase(old_transitions.back());
+            old_transitions.pop_back();
         }
 
         source_state++;
-- 
2.43.0


From 96086b5b977c5eebbc0a82321ca65dd820f7d7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:15 +0000
Subject: [PATCH 32/65] fix: removing epsilons from a foma transducer crashed

---
 libhfst/src/HfstTransducer.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 7b8a7a5..409214c 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -2158,6 +2158,15 @@ HfstTransducer &
 HfstTransducer::remove_epsilons()
 {
     is_trie = false;
+#if HAVE_FOMA && HAVE_OPENFST
+    if (this->type == FOMA_TYPE)
+    {
+        // foma's own epsilon removal crashes
+        this->convert(TROPICAL_OPENFST_TYPE);
+        this->remove_epsilons();
+        return this->convert(FOMA_TYPE);
+    }
+#endif
     return apply(
 #if HAVE_SFST
         &hfst::implementations::SfstTransducer::remove_epsilons,
-- 
2.43.0


From 501c0f46ac495429d07c846b1aa51385e8a5d368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:15 +0000
Subject: [PATCH 33/65] fix: remove_transitions left every other one of
 successive matching transitions

---
 libhfst/src/implementations/HfstBasicTransducer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 945a023..487cdc9 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -2111,6 +2111,7 @@ HfstBasicTransducer::remove_transitions(const HfstSymbolPair &sp)
             if (in_tr == in_match && out_tr == out_match)
             {
                 it.erase(it.begin() + i);
+                i--; // the next transition took the place of the removed one
             }
             else
             {
-- 
2.43.0


From 45f0ff29c6f1076f1448f61fcf50bc2b21994df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:35 +0000
Subject: [PATCH 34/65] fix: minimizing transducers with negative weights could
 change the weights

---
 .../TropicalWeightTransducer.cc                | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/libhfst/src/implementations/TropicalWeightTransducer.cc b/libhfst/src/implementations/TropicalWeightTransducer.cc
index 21cd737..eb8d673 100644
--- a/libhfst/src/implementations/TropicalWeightTransducer.cc
+++ b/libhfst/src/implementations/TropicalWeightTransducer.cc
@@ -253,7 +253,25 @@ TropicalWeightTransducer::minimize(StdVectorFst *t)
 
     if (w < 0)
     {
+        // Minimization can add an epsilon transition that carries the weight
+        // pushed past an initial state with incoming transitions. It did not
+        // get its weight from add_to_weights above.
+        StateId start = det->Start();
+        bool epsilon_start = false;
+        if (start != fst::kNoStateId && det->NumArcs(start) == 1)
+        {
+            const StdArc arc
+                = fst::ArcIterator<StdVectorFst>(*det, start).Value();
+            epsilon_start = arc.ilabel == 0 && arc.olabel == 0;
+        }
         add_to_weights(det, w);
+        if (epsilon_start)
+        {
+            fst::MutableArcIterator<StdVectorFst> aiter(det, start);
+            StdArc arc = aiter.Value();
+            arc.weight = arc.weight.Value() - w;
+            aiter.SetValue(arc);
+        }
     }
 
     return det;
-- 
2.43.0


From 4ab5dafd4eadef27653b0168a3522cffc09b1931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:35 +0000
Subject: [PATCH 35/65] fix: n_best of acyclic transducers with negative
 weights gave wrong paths

---
 libhfst/src/implementations/TropicalWeightTransducer.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libhfst/src/implementations/TropicalWeightTransducer.cc b/libhfst/src/implementations/TropicalWeightTransducer.cc
index eb8d673..01ff002 100644
--- a/libhfst/src/implementations/TropicalWeightTransducer.cc
+++ b/libhfst/src/implementations/TropicalWeightTransducer.cc
@@ -2103,6 +2103,12 @@ TropicalWeightTransducer::n_best(StdVectorFst *t, unsigned int n)
     StdVectorFst *scaled = t->Copy();
     RmEpsilon(scaled);
     float w = get_smallest_weight(scaled);
+    // Scaling changes the order of paths of different lengths. It is only
+    // needed if there can be cycles with negative weights.
+    if (w < 0 && (scaled->Properties(fst::kAcyclic, true) & fst::kAcyclic))
+    {
+        w = 0;
+    }
     if (w < 0)
     {
         add_to_weights(scaled, -w);
-- 
2.43.0


From 7e1cde86467a8d066cf0bc4997305a73f46ab956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:17 +0000
Subject: [PATCH 36/65] fix: mark-up replacement in parallel rules: the mapping
 is a transducer, cross product aborted the program

---
 libhfst/src/HfstXeroxRules.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/libhfst/src/HfstXeroxRules.cc b/libhfst/src/HfstXeroxRules.cc
index 144a2fa..6f64b1b 100644
--- a/libhfst/src/HfstXeroxRules.cc
+++ b/libhfst/src/HfstXeroxRules.cc
@@ -963,10 +963,20 @@ namespace hfst
               HfstTransducer oneMappingPair(mappingPairVector[j].first);
               // unknowns/identities must not be expanded to marker symbols
               oneMappingPair.insert_to_alphabet(marker_symbols);
-              HfstTransducer foo(mappingPairVector[j].second);
-              foo.insert_to_alphabet(marker_symbols);
-              oneMappingPair.cross_product
-                (foo.concatenate(marker));
+              if ( mappingPairVector[j].first.get_property("isMarkup") == "yes" )
+                {
+                  // the mapping is already a transducer from center to
+                  // marked-up center
+                  oneMappingPair.concatenate
+                    (HfstTransducer(hfst::internal_epsilon, marker_string, type));
+                }
+              else
+                {
+                  HfstTransducer foo(mappingPairVector[j].second);
+                  foo.insert_to_alphabet(marker_symbols);
+                  oneMappingPair.cross_product
+                    (foo.concatenate(marker));
+                }
               //oneMappingPair.cross_product(mappingPairVector[j].second);
               
               //printf("oneMappingPair \n");
-- 
2.43.0


From 830b7c986f1f2c8ce7b0f717678bbdbd5a49d897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:17 +0000
Subject: [PATCH 37/65] fix: parallel replace rules that each have several
 contexts: the contexts were ignored

---
 libhfst/src/HfstXeroxRules.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libhfst/src/HfstXeroxRules.cc b/libhfst/src/HfstXeroxRules.cc
index 6f64b1b..8decc25 100644
--- a/libhfst/src/HfstXeroxRules.cc
+++ b/libhfst/src/HfstXeroxRules.cc
@@ -1013,6 +1013,10 @@ namespace hfst
                   noContexts = false;
                 }
             }
+          else if ( contextVector.size() > 1 )
+            {
+              noContexts = false;
+            }
 
           //////////////////////////////////////////////////////////////////
           // In case of ? -> x replacement
-- 
2.43.0


From 5f49791ec6a5ddc2d9311957350304c83589e1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:17 +0000
Subject: [PATCH 38/65] fix: right-to-left longest match replacement: a match
 longer by one symbol was not preferred

---
 libhfst/src/HfstXeroxRules.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/libhfst/src/HfstXeroxRules.cc b/libhfst/src/HfstXeroxRules.cc
index 8decc25..957e2fa 100644
--- a/libhfst/src/HfstXeroxRules.cc
+++ b/libhfst/src/HfstXeroxRules.cc
@@ -1674,20 +1674,24 @@ namespace hfst
           HfstTransducer epsilonToLeftBracket("@_EPSILON_SYMBOL_@", leftMarker, TOK, type);
 
 
-          //[ ? | 0:< | >:0 | 0:> | B ]
-          HfstTransducer nonClosingBracketInsertion(identityPair);
-          nonClosingBracketInsertion.disjunct(epsilonToLeftBracket).
+          // [?-B]+ [ 0:< | >:0 | 0:> | B ]
+          HfstTransducer nonClosingBracketInsertionTmp(epsilonToLeftBracket);
+          nonClosingBracketInsertionTmp.
                   disjunct(RightBracketToEpsilon).
                   disjunct(epsilonToRightBracket).
                   disjunct(B).
                   optimize();
+          HfstTransducer nonClosingBracketInsertion(identityPairMinusBracketsPlus);
+          nonClosingBracketInsertion.concatenate(nonClosingBracketInsertionTmp).optimize();
+
+          HfstTransducer middlePart(identityPairMinusBrackets);
+          middlePart.disjunct(nonClosingBracketInsertion).optimize();
 
 
-          // [ B:0 | 0:B | ?-B ]* [?-B]+ [ ? | 0:< | <:0 | 0:> | B ] 0:< [?-B]+ > ?*
+          // [ B:0 | 0:B | ?-B ]* [ [?-B] or [?-B]+ [ 0:< | >:0 | 0:> | B ] ] 0:< [?-B]+ > ?*
 
           HfstTransducer Constraint(rightPart);
-          Constraint.concatenate(identityPairMinusBracketsPlus).
-                  concatenate(nonClosingBracketInsertion).optimize().
+          Constraint.concatenate(middlePart).optimize().
                   concatenate(epsilonToLeftBracket).
                   concatenate(identityPairMinusBracketsPlus).
                   concatenate(rightBracket).
-- 
2.43.0


From 4cf9fda6cdd441f742a269a6463c7cae85864811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:17 +0000
Subject: [PATCH 39/65] fix: replace rules: boundary symbols may stand only at
 the ends of the input, deletion by directed replacement overgenerated

---
 libhfst/src/HfstXeroxRules.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/libhfst/src/HfstXeroxRules.cc b/libhfst/src/HfstXeroxRules.cc
index 957e2fa..603e2e1 100644
--- a/libhfst/src/HfstXeroxRules.cc
+++ b/libhfst/src/HfstXeroxRules.cc
@@ -2245,12 +2245,11 @@ namespace hfst
                                     .concatenate(boundary)
                                     .optimize();
 
-            // [0:.#. | ? - .#.]*
+            // 0:.#. (? - .#.)* 0:.#.
             HfstTransducer zeroToBoundary("@_EPSILON_SYMBOL_@", boundaryMarker, TOK, type);
             HfstTransducer retval(zeroToBoundary);
-            retval.disjunct(identityMinusBoundary)
-                  .optimize()
-                  .repeat_star()
+            retval.concatenate(identityMinusBoundaryStar)
+                  .concatenate(zeroToBoundary)
                   .optimize();
 
             //printf("retval .o. t: \n");
@@ -2264,7 +2263,7 @@ namespace hfst
                .optimize();
 
             // apply boundary to the transducer
-            // compose [0:.#. | ? - .#.]* .o. t
+            // compose 0:.#. (? - .#.)* 0:.#. .o. t
             HfstTransducer tr(t);
 
             //tr.insert_to_alphabet(boundaryMarker);
-- 
2.43.0


From 4e6a45a863964a92c5bf092fb7cc46fbd587ce47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:30 +0000
Subject: [PATCH 40/65] fix: replace rules: any symbol in the center or in a
 context must not match the boundary symbol

---
 libhfst/src/HfstXeroxRules.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/libhfst/src/HfstXeroxRules.cc b/libhfst/src/HfstXeroxRules.cc
index 603e2e1..f509ce2 100644
--- a/libhfst/src/HfstXeroxRules.cc
+++ b/libhfst/src/HfstXeroxRules.cc
@@ -428,8 +428,12 @@ namespace hfst
             HfstTransducer identityStar(identityPair);
             identityStar.repeat_star();
 
+            // the boundary symbol is not matched by "any symbol" in a context
+            HfstTransducer leftContext(ContextVector[i].first);
+            leftContext.insert_to_alphabet(".#.");
+
             HfstTransducer firstContext( identityStar);
-            firstContext.concatenate(ContextVector[i].first);
+            firstContext.concatenate(leftContext);
             firstContext.transform_weights(&zero_weight);
             firstContext.optimize();
 
@@ -437,6 +441,7 @@ namespace hfst
 
             // Rc =  (Rc .*) << {<,>}
             HfstTransducer secondContext(ContextVector[i].second);
+            secondContext.insert_to_alphabet(".#.");
             secondContext.concatenate(identityStar);
             secondContext.transform_weights(&zero_weight);
             secondContext.optimize();
@@ -629,6 +634,10 @@ namespace hfst
         HfstTransducer mapping(type);
         for ( unsigned int i = 0; i < mappingPairVector.size(); i++ )
         {
+            // the boundary symbol is not matched by "any symbol"
+            mappingPairVector[i].first.insert_to_alphabet(".#.");
+            mappingPairVector[i].second.insert_to_alphabet(".#.");
+
             HfstTransducer oneMappingPair(mappingPairVector[i].first);
           
             //markup rules are already cross product in mappingPairVector[i].first (second is empty)
@@ -660,13 +669,11 @@ namespace hfst
                 // remove .#. from the center
                 // center - (?* .#. ?*)
                 oneMappingPair.subtract(removeHash, false).optimize();
-                oneMappingPair.remove_from_alphabet(".#.");
                 mapping = oneMappingPair;
             }
             else
             {
                 oneMappingPair.subtract(removeHash, false).optimize();
-                oneMappingPair.remove_from_alphabet(".#.");
                 mapping.disjunct(oneMappingPair).optimize();
             }
         }
@@ -960,6 +967,9 @@ namespace hfst
               // i+1 because @0@ is epsilon..
               std::string marker_string = getMarkerString(i+1); 
               HfstTransducer marker(marker_string, type); 
+              // the boundary symbol is not matched by "any symbol"
+              mappingPairVector[j].first.insert_to_alphabet(".#.");
+              mappingPairVector[j].second.insert_to_alphabet(".#.");
               HfstTransducer oneMappingPair(mappingPairVector[j].first);
               // unknowns/identities must not be expanded to marker symbols
               oneMappingPair.insert_to_alphabet(marker_symbols);
@@ -988,13 +998,11 @@ namespace hfst
                   // remove .#. from the center
                   // center - (?* .#. ?*)
                   oneMappingPair.subtract(removeHash, false).optimize();
-                  oneMappingPair.remove_from_alphabet(".#.");
                   mapping = oneMappingPair;
                 }
               else
                 {
                   oneMappingPair.subtract(removeHash, false).optimize();
-                  oneMappingPair.remove_from_alphabet(".#.");
                   mapping.disjunct(oneMappingPair).optimize();
                 }
             }
-- 
2.43.0


From 92d24a59492a6dff69efb915d79d4e0ac617eeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:17 +0000
Subject: [PATCH 41/65] fix: lexc: whether a lexicon is the first one must not
 depend on earlier compilations in the same process

---
 libhfst/src/parsers/LexcCompiler.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libhfst/src/parsers/LexcCompiler.cc b/libhfst/src/parsers/LexcCompiler.cc
index 64168ba..aed08ac 100644
--- a/libhfst/src/parsers/LexcCompiler.cc
+++ b/libhfst/src/parsers/LexcCompiler.cc
@@ -1156,7 +1156,7 @@ LexcCompiler::addXreDefinition(const string &definition_name,
 LexcCompiler &
 LexcCompiler::setCurrentLexiconName(const string &lexiconName)
 {
-    static bool firstLexicon = true;
+    bool firstLexicon = currentLexiconName_.empty();
     currentLexiconName_ = lexiconName;
 
     if (lexiconNames_.find(lexiconName) != lexiconNames_.end())
@@ -1232,7 +1232,6 @@ LexcCompiler::setCurrentLexiconName(const string &lexiconName)
     }
     if (!quiet_)
         *err << lexiconName << "...";
-    firstLexicon = false;
 
     flush(err);
 
-- 
2.43.0


From 7563cb55ed67b448e1d4074ed5866d7fd2c81a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:17 +0000
Subject: [PATCH 42/65] fix: lexc: weights and continuations of regular
 expression entries leaked into other expression entries

---
 libhfst/src/parsers/LexcCompiler.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/parsers/LexcCompiler.cc b/libhfst/src/parsers/LexcCompiler.cc
index aed08ac..11d36ff 100644
--- a/libhfst/src/parsers/LexcCompiler.cc
+++ b/libhfst/src/parsers/LexcCompiler.cc
@@ -1086,9 +1086,13 @@ LexcCompiler::addXreEntry(const string &regexp, const string &continuation,
         }
     }
 
+    // the weight belongs to this entry only, other entries share the key
+    newPaths->set_final_weights(hfst::double_to_float(weight), true);
+
     // encode key
     // keep regexps with different continuations separate
-    string regex_key = currentLexiconName_ + "_" + continuation;
+    // (a space cannot be part of a lexicon name as such)
+    string regex_key = currentLexiconName_ + " " + continuation;
 
     regExpresionEncode(regex_key);
     tokenizer_.add_multichar_symbol(regex_key);
@@ -1132,7 +1136,7 @@ LexcCompiler::addXreEntry(const string &regexp, const string &continuation,
     tokenizer_.add_multichar_symbol(joinerEnc);
     StringPairVector newVector(
         tokenizer_.tokenize(joinerEnc + regex_key + encodedCont, false));
-    stringsTrie_.disjunct(newVector, hfst::double_to_float(weight));
+    stringsTrie_.disjunct(newVector, 0);
 
     return *this;
 }
-- 
2.43.0


From e44bd9d8c145f5da1e966a023e0718f0025ae827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:17 +0000
Subject: [PATCH 43/65] fix: lexc: any-symbols in regular expression entries
 matched excluded symbols and missed symbols of other entries

---
 libhfst/src/implementations/HfstBasicTransducer.cc | 9 +++++++--
 libhfst/src/parsers/LexcCompiler.cc                | 3 ++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 487cdc9..fe5f422 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -2839,11 +2839,16 @@ HfstBasicTransducer::substitute(SubstMap &substitution_map, bool harmonize)
     }
 
     // Harmonize the resulting and the substituting graphs, if needed
+    // (twice, so that every graph gets to know the symbols of the graphs that
+    // come after it)
     if (harmonize)
     {
-        for (const auto &sym_it : substitutions_performed_for_symbols)
+        for (int round = 0; round < 2; round++)
         {
-            this->harmonize(substitution_map.at(sym_it));
+            for (const auto &sym_it : substitutions_performed_for_symbols)
+            {
+                this->harmonize(substitution_map.at(sym_it));
+            }
         }
     }
 
diff --git a/libhfst/src/parsers/LexcCompiler.cc b/libhfst/src/parsers/LexcCompiler.cc
index 11d36ff..e9c2290 100644
--- a/libhfst/src/parsers/LexcCompiler.cc
+++ b/libhfst/src/parsers/LexcCompiler.cc
@@ -1562,7 +1562,8 @@ LexcCompiler::compileLexical()
     HfstBasicTransducer lexicons_basic(lexicons);
     lexicons_basic.substitute(regMarkToTr, true);
 
-    lexicons_basic.prune_alphabet();
+    // symbols that any-symbols must not match have to be kept
+    lexicons_basic.prune_alphabet(false);
 
     if (debug)
     {
-- 
2.43.0


From cfe7bbfbf3212540cad83120b2b681f3ff7c92ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:24 +0000
Subject: [PATCH 44/65] fix: lexc with flags: a lexicon that accepts nothing
 crashed the compiler

---
 libhfst/src/parsers/LexcCompiler.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libhfst/src/parsers/LexcCompiler.cc b/libhfst/src/parsers/LexcCompiler.cc
index e9c2290..061e6a8 100644
--- a/libhfst/src/parsers/LexcCompiler.cc
+++ b/libhfst/src/parsers/LexcCompiler.cc
@@ -1598,6 +1598,13 @@ LexcCompiler::compileLexical()
             }
         }
 
+        // No flags at all if the lexicon accepts nothing
+        if (flagD.empty())
+        {
+            rv->optimize();
+            return rv;
+        }
+
         // Construct a rule for consecutive flag removal:
         // [FLAG1 | FLAG2 ... FLAGN] -> 0 || [FLAG1 | FLAG2 ... FLAGN] _
         // and also an inverted rule
-- 
2.43.0


From cb3b52e74227e4d9916c5508c9888dc3f356c9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:44 +0000
Subject: [PATCH 45/65] fix: lexc with flags: words that contain the user's own
 flag diacritics disappeared

---
 libhfst/src/parsers/LexcCompiler.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libhfst/src/parsers/LexcCompiler.cc b/libhfst/src/parsers/LexcCompiler.cc
index 061e6a8..9875fb5 100644
--- a/libhfst/src/parsers/LexcCompiler.cc
+++ b/libhfst/src/parsers/LexcCompiler.cc
@@ -1587,6 +1587,7 @@ LexcCompiler::compileLexical()
     {
         StringSet transducerAlphabet = rv->get_alphabet();
         StringSet flagD;
+        StringSet otherFlags;
         for (StringSet::const_iterator s = transducerAlphabet.begin();
              s != transducerAlphabet.end(); ++s)
         {
@@ -1596,6 +1597,10 @@ LexcCompiler::compileLexical()
             {
                 flagD.insert(alph);
             }
+            else if (FdOperation::is_diacritic(alph))
+            {
+                otherFlags.insert(alph);
+            }
         }
 
         // No flags at all if the lexicon accepts nothing
@@ -1636,6 +1641,12 @@ LexcCompiler::compileLexical()
         hfst::xre::XreCompiler xre_comp(format_);
 
         HfstTransducer *flag_filter = xre_comp.compile(flag_remover_regexp);
+        // any-symbols do not match flags, let the other flags through
+        for (StringSet::const_iterator it = otherFlags.begin();
+             it != otherFlags.end(); ++it)
+        {
+            flag_filter->insert_freely(StringPair(*it, *it), false);
+        }
         flag_filter->optimize();
         HfstTransducer *inverted_flag_filter
             = new HfstTransducer(*flag_filter);
-- 
2.43.0


From fc309b267725423ece52214bd7c923aae9a86f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:09 +0000
Subject: [PATCH 46/65] fix: lexc: a syntax error made every later compilation
 in the same process fail

---
 libhfst/src/parsers/LexcCompiler.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libhfst/src/parsers/LexcCompiler.cc b/libhfst/src/parsers/LexcCompiler.cc
index 9875fb5..c3f1e4b 100644
--- a/libhfst/src/parsers/LexcCompiler.cc
+++ b/libhfst/src/parsers/LexcCompiler.cc
@@ -279,6 +279,7 @@ LexcCompiler::parse(FILE *infile)
     }
     hlexclex_destroy();
     hlexcin = infile;
+    hlexcnerrs = 0;
     hlexcparse();
     xre_.remove_defined_multichar_symbols();
     if (hlexcnerrs > 0)
@@ -307,6 +308,7 @@ LexcCompiler::parse(const char *filename)
         parseErrors_ = true;
         return *this;
     }
+    hlexcnerrs = 0;
     hlexcparse();
     xre_.remove_defined_multichar_symbols();
     if (hlexcnerrs > 0)
-- 
2.43.0


From 4a9ac4e22c54ec31c88f0c7e375bbf4ed7a37476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:32 +0000
Subject: [PATCH 47/65] fix: set_final_weights ignored increment for log weight
 transducers

---
 libhfst/src/HfstTransducer.cc                      | 2 +-
 libhfst/src/implementations/LogWeightTransducer.cc | 4 ++--
 libhfst/src/implementations/LogWeightTransducer.h  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 409214c..f7060f1 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -3996,7 +3996,7 @@ HfstTransducer::set_final_weights(float weight, bool increment)
     if (this->type == LOG_OPENFST_TYPE)
     {
         implementation.log_ofst = this->log_ofst_interface.set_final_weights(
-            this->implementation.log_ofst, weight);
+            this->implementation.log_ofst, weight, increment);
         return *this;
     }
 #endif
diff --git a/libhfst/src/implementations/LogWeightTransducer.cc b/libhfst/src/implementations/LogWeightTransducer.cc
index 2e12699..037b01c 100644
--- a/libhfst/src/implementations/LogWeightTransducer.cc
+++ b/libhfst/src/implementations/LogWeightTransducer.cc
@@ -363,13 +363,13 @@ LogWeightTransducer::recode_symbol_numbers(LogFst *t, NumberNumberMap &km)
 }
 
 LogFst *
-LogWeightTransducer::set_final_weights(LogFst *t, float weight)
+LogWeightTransducer::set_final_weights(LogFst *t, float weight, bool increment)
 {
     for (fst::StateIterator<LogFst> siter(*t); !siter.Done(); siter.Next())
     {
         StateId s = siter.Value();
         if (t->Final(s) != LogWeight::Zero())
-            t->SetFinal(s, weight);
+            t->SetFinal(s, increment ? weight + t->Final(s).Value() : weight);
     }
     return t;
 }
diff --git a/libhfst/src/implementations/LogWeightTransducer.h b/libhfst/src/implementations/LogWeightTransducer.h
index 9602a49..b15638e 100644
--- a/libhfst/src/implementations/LogWeightTransducer.h
+++ b/libhfst/src/implementations/LogWeightTransducer.h
@@ -162,7 +162,7 @@ namespace implementations
       static LogFst * subtract(LogFst * t1,
                             LogFst * t2);
       static LogFst * set_weight(LogFst * t,float f);
-      static LogFst * set_final_weights(LogFst * t, float weight);
+      static LogFst * set_final_weights(LogFst * t, float weight, bool increment=false);
       static LogFst * transform_weights(LogFst * t,float (*func)(float f));
       static LogFst * push_labels(LogFst * t, bool to_initial_state);
       static LogFst * push_weights(LogFst * t, bool to_initial_state);
-- 
2.43.0


From 005aab5257df887327f693f2ed6a75c7152c9881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:32 +0000
Subject: [PATCH 48/65] fix: the substituted symbol stayed in (or got into) the
 alphabet of log weight transducers

---
 libhfst/src/HfstTransducer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index f7060f1..7d1e469 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -3724,7 +3724,8 @@ HfstTransducer::substitute(const std::string &old_symbol,
         return *this;
     }
 #if HAVE_OPENFST_LOG
-    if (this->type == LOG_OPENFST_TYPE && input_side && output_side)
+    if (false
+        && (this->type == LOG_OPENFST_TYPE && input_side && output_side))
     {
         hfst::implementations::LogFst *tmp
             = this->log_ofst_interface.substitute(implementation.log_ofst,
-- 
2.43.0


From 0aaec40e8c57f6657be412b4a52e257fb7f68381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:32 +0000
Subject: [PATCH 49/65] fix: substituting a transducer for a pair: any-symbols
 of a foma transducer did not match the pair

---
 libhfst/src/HfstTransducer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 7d1e469..9f1ddf4 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -3929,6 +3929,8 @@ HfstTransducer::substitute(const StringPair &symbol_pair,
         // HfstTransducer::harmonize does nothing to a foma transducer,
         // because foma's own functions take care of harmonizing.
         // Now we need to harmonize because we are using internal transducers.
+        this->foma_interface.harmonize(implementation.foma,
+                                       pairTransducer.implementation.foma);
         this->foma_interface.harmonize(implementation.foma,
                                        transducer.implementation.foma);
 
-- 
2.43.0


From a003592a84e15ce7df7accb74a168a92c69693ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:57 +0000
Subject: [PATCH 50/65] fix: a copy of a tokenizer shared and later freed the
 original's symbol table

---
 libhfst/src/HfstTokenizer.cc | 23 +++++++++++++++++++++++
 libhfst/src/HfstTokenizer.h  |  2 ++
 2 files changed, 25 insertions(+)

diff --git a/libhfst/src/HfstTokenizer.cc b/libhfst/src/HfstTokenizer.cc
index c80e07b..a158d8a 100644
--- a/libhfst/src/HfstTokenizer.cc
+++ b/libhfst/src/HfstTokenizer.cc
@@ -67,6 +67,29 @@ MultiCharSymbolTrie::MultiCharSymbolTrie(void)
 {
 }
 
+MultiCharSymbolTrie::MultiCharSymbolTrie(const MultiCharSymbolTrie &another)
+    : symbol_rests(another.symbol_rests.size(), (MultiCharSymbolTrie *)NULL),
+      is_leaf(another.is_leaf)
+{
+    for (size_t i = 0; i < symbol_rests.size(); i++)
+    {
+        if (another.symbol_rests[i] != NULL)
+        {
+            symbol_rests[i]
+                = new MultiCharSymbolTrie(*another.symbol_rests[i]);
+        }
+    }
+}
+
+MultiCharSymbolTrie &
+MultiCharSymbolTrie::operator=(const MultiCharSymbolTrie &another)
+{
+    MultiCharSymbolTrie copy(another);
+    symbol_rests.swap(copy.symbol_rests);
+    is_leaf.swap(copy.is_leaf);
+    return *this;
+}
+
 MultiCharSymbolTrie::~MultiCharSymbolTrie(void)
 {
     for (MultiCharSymbolTrieVector::iterator it = symbol_rests.begin();
diff --git a/libhfst/src/HfstTokenizer.h b/libhfst/src/HfstTokenizer.h
index 8743e58..5f89089 100644
--- a/libhfst/src/HfstTokenizer.h
+++ b/libhfst/src/HfstTokenizer.h
@@ -50,6 +50,8 @@ class MultiCharSymbolTrie
 
   public:
     HFSTDLL MultiCharSymbolTrie(void);
+    HFSTDLL MultiCharSymbolTrie(const MultiCharSymbolTrie &another);
+    HFSTDLL MultiCharSymbolTrie &operator=(const MultiCharSymbolTrie &another);
     HFSTDLL ~MultiCharSymbolTrie(void);
     HFSTDLL void add(const char *p);
     HFSTDLL const char *find(const char *p) const;
-- 
2.43.0


From 4072e49f415472394c0ecd47d0733d462716f00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:57 +0000
Subject: [PATCH 51/65] fix: string lists: escaped epsilon names, backslashes
 inside symbols and heads of nested symbols were misread

---
 libhfst/src/HfstStrings2FstTokenizer.cc | 76 +++++++++++--------------
 libhfst/src/HfstStrings2FstTokenizer.h  |  3 +
 2 files changed, 35 insertions(+), 44 deletions(-)

diff --git a/libhfst/src/HfstStrings2FstTokenizer.cc b/libhfst/src/HfstStrings2FstTokenizer.cc
index 857e80d..870300a 100644
--- a/libhfst/src/HfstStrings2FstTokenizer.cc
+++ b/libhfst/src/HfstStrings2FstTokenizer.cc
@@ -21,6 +21,7 @@ HfstStrings2FstTokenizer::HfstStrings2FstTokenizer(
     // \: \\ \<space> and eps are special cases.
     if (!eps.empty())
     {
+        add_multichar_symbol_head(eps);
         add_multichar_symbol(eps);
     }
 
@@ -31,11 +32,6 @@ HfstStrings2FstTokenizer::HfstStrings2FstTokenizer(
     add_multichar_symbol(TAB_ESCAPE);
     add_multichar_symbol(SPACE_ESCAPE);
 
-    if (eps.size() > 0)
-    {
-        tokenizer.add_multichar_symbol(eps);
-        add_multichar_symbol_head(eps);
-    }
     add_multichar_symbol_head(SPACE_ESCAPE);
 
     for (StringVector::const_iterator it = multichar_symbols.begin();
@@ -61,8 +57,9 @@ HfstStrings2FstTokenizer::add_multichar_symbol_head(
     {
         throw EmptyMulticharSymbol();
     }
+    // the head is one character, whatever symbols have been added so far
     StringVector tokenized_multichar_symbol
-        = tokenizer.tokenize_one_level(multichar_symbol, false);
+        = HfstTokenizer().tokenize_one_level(multichar_symbol, false);
     std::string multichar_symbol_head(*tokenized_multichar_symbol.begin());
     tokenizer.add_multichar_symbol(std::string(BACKSLASH)
                                    + multichar_symbol_head);
@@ -113,27 +110,33 @@ HfstStrings2FstTokenizer::tokenize_string_pair(const std::string &str,
     }
 }
 
+std::string
+HfstStrings2FstTokenizer::make_symbol(const std::string &token)
+{
+    // Only an unescaped epsilon name stands for epsilon.
+    if (token.empty() || token == eps)
+    {
+        return EPSILON_SYMBOL;
+    }
+    std::string symbol = unescape(token);
+    return symbol.empty() ? EPSILON_SYMBOL : symbol;
+}
+
 StringPairVector
 HfstStrings2FstTokenizer::make_pair_vector(const StringVector &v)
 {
     StringPairVector spv;
     for (StringVector::const_iterator it = v.begin(); it != v.end(); ++it)
     {
+        std::string input = make_symbol(*it);
         if (!is_pair_input_symbol(it, v.end()))
         {
-            std::string symbol = unescape(*it);
-            symbol
-                = (symbol.empty() || symbol == eps ? EPSILON_SYMBOL : symbol);
-            spv.push_back(StringPair(symbol, symbol));
+            spv.push_back(StringPair(input, input));
         }
         else
         {
-            std::string input
-                = (it->empty() || *it == eps ? EPSILON_SYMBOL : unescape(*it));
             ++(++it);
-            std::string output
-                = (it->empty() || *it == eps ? EPSILON_SYMBOL : unescape(*it));
-            spv.push_back(StringPair(input, output));
+            spv.push_back(StringPair(input, make_symbol(*it)));
         }
     }
     return spv;
@@ -148,36 +151,18 @@ HfstStrings2FstTokenizer::make_pair_vector(const StringVector &input,
     StringVector::const_iterator output_it = output.begin();
     while (input_it != input.end() && output_it != output.end())
     {
-        std::string input_symbol = unescape(*input_it);
-        std::string output_symbol = unescape(*output_it);
-
-        spv.push_back(StringPair(
-            input_symbol.empty() || input_symbol == eps ? EPSILON_SYMBOL
-                                                        : input_symbol,
-            output_symbol.empty() || output_symbol == eps ? EPSILON_SYMBOL
-                                                          : output_symbol));
+        spv.push_back(
+            StringPair(make_symbol(*input_it), make_symbol(*output_it)));
         ++input_it;
         ++output_it;
     }
-    if (input_it == input.end())
+    for (; output_it != output.end(); ++output_it)
     {
-        for (; output_it != output.end(); ++output_it)
-        {
-            spv.push_back(StringPair(EPSILON_SYMBOL,
-                                     output_it->empty() || *output_it == eps
-                                         ? EPSILON_SYMBOL
-                                         : unescape(*output_it)));
-        }
+        spv.push_back(StringPair(EPSILON_SYMBOL, make_symbol(*output_it)));
     }
-    else
+    for (; input_it != input.end(); ++input_it)
     {
-        for (; input_it != input.end(); ++input_it)
-        {
-            spv.push_back(StringPair(input_it->empty() || *input_it == eps
-                                         ? EPSILON_SYMBOL
-                                         : unescape(*input_it),
-                                     EPSILON_SYMBOL));
-        }
+        spv.push_back(StringPair(make_symbol(*input_it), EPSILON_SYMBOL));
     }
     return spv;
 }
@@ -207,7 +192,7 @@ HfstStrings2FstTokenizer::unescape(std::string symbol)
     pos = 0;
     while ((pos = symbol.find(BACKSLASH_ESC)) != std::string::npos)
     {
-        symbol.replace(pos, strlen(BACKSLASH_ESC), EMPTY);
+        symbol.replace(pos, strlen(BACKSLASH_ESC), BACKSLASH);
     }
 
     pos = 0;
@@ -219,7 +204,7 @@ HfstStrings2FstTokenizer::unescape(std::string symbol)
     pos = 0;
     while ((pos = symbol.find(TAB_ESCAPE)) != std::string::npos)
     {
-        symbol.replace(pos, strlen(TAB_ESCAPE), "   ");
+        symbol.replace(pos, strlen(TAB_ESCAPE), "\t");
     }
 
     pos = 0;
@@ -268,11 +253,14 @@ HfstStrings2FstTokenizer::check_cols(const std::string &symbol)
         size_t pos = 0;
         while ((pos = symbol.find(COL_CHAR, pos + 1)) != std::string::npos)
         {
-            if (symbol[pos - 1] != BACKSLASH_CHAR)
+            // a colon is escaped by an odd number of backslashes
+            size_t backslashes = 0;
+            while (backslashes < pos
+                   && symbol[pos - backslashes - 1] == BACKSLASH_CHAR)
             {
-                throw UnescapedColsFound();
+                ++backslashes;
             }
-            if (pos > 1 && symbol[pos - 2] == BACKSLASH_CHAR)
+            if (backslashes % 2 == 0)
             {
                 throw UnescapedColsFound();
             }
diff --git a/libhfst/src/HfstStrings2FstTokenizer.h b/libhfst/src/HfstStrings2FstTokenizer.h
index 3153916..90aaa39 100644
--- a/libhfst/src/HfstStrings2FstTokenizer.h
+++ b/libhfst/src/HfstStrings2FstTokenizer.h
@@ -84,6 +84,9 @@ class HfstStrings2FstTokenizer
   StringPairVector make_pair_vector(const StringVector &input,
                     const StringVector &output);
 
+  // Return the symbol that token stands for.
+  std::string make_symbol(const std::string &token);
+
   // Return true it *it is followed by ':' and another symbol.
   bool is_pair_input_symbol(StringVector::const_iterator it,
                 StringVector::const_iterator end);
-- 
2.43.0


From 15dd7ad3e6172914c94c2a03f9bf0d528fe1eba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:40 +0000
Subject: [PATCH 52/65] fix: hfst-priority-disjunct: inputs of different types
 ended the program

---
 tools/src/hfst-priority-disjunct.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/hfst-priority-disjunct.cc b/tools/src/hfst-priority-disjunct.cc
index 69e0d3f..01b36a6 100644
--- a/tools/src/hfst-priority-disjunct.cc
+++ b/tools/src/hfst-priority-disjunct.cc
@@ -209,7 +209,7 @@ priority_disjunct_streams(HfstInputStream &firststream,
         {
             first->priority_union(*second); // harmonize
         }
-        catch (TransducerTypeMismatchException ttme)
+        catch (const HfstTransducerTypeMismatchException &ttme)
         {
             if (allow_transducer_conversion)
             {
-- 
2.43.0


From f690256ccd3dbd91acf5ee7bdc316cbb11ee1a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:40 +0000
Subject: [PATCH 53/65] fix: hfst-kill-paths: any-symbols began to match the
 removed symbols

---
 tools/src/hfst-kill-paths.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/src/hfst-kill-paths.cc b/tools/src/hfst-kill-paths.cc
index a53d98d..bbd9934 100644
--- a/tools/src/hfst-kill-paths.cc
+++ b/tools/src/hfst-kill-paths.cc
@@ -147,6 +147,8 @@ do_killing(HfstTransducer &trans)
 {
     HfstBasicTransducer original(trans);
     HfstBasicTransducer replication;
+    // symbols that are left only in the alphabet are still known
+    replication.add_symbols_to_alphabet(original.get_alphabet());
     HfstState state_count = 1;
     std::map<HfstState, HfstState> rebuilt;
     rebuilt[0] = 0; // HfstBasicTransducer initially has state number zero
-- 
2.43.0


From 0f4b009f109c6fd5830d931679dfb902bfec97e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:40 +0000
Subject: [PATCH 54/65] fix: hfst-reweight: alphabet was lost, rules of a file
 inherited values from earlier lines

---
 tools/src/hfst-reweight.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/src/hfst-reweight.cc b/tools/src/hfst-reweight.cc
index 40c562e..5e5aaba 100644
--- a/tools/src/hfst-reweight.cc
+++ b/tools/src/hfst-reweight.cc
@@ -356,6 +356,7 @@ do_reweight(HfstTransducer &trans)
 {
     HfstBasicTransducer original(trans);
     HfstBasicTransducer replication;
+    replication.add_symbols_to_alphabet(original.get_alphabet());
     HfstState state_count = 1;
     std::map<HfstState, HfstState> rebuilt;
     rebuilt[0] = 0; // HfstBasicTransducer initially has state number zero
@@ -474,6 +475,8 @@ process_stream(HfstInputStream &instream, HfstOutputStream &outstream)
                 }
                 symbol = hfst_strndup(line, tab - line);
                 char *weightspec = hfst_strndup(tab + 1, endstr - tab - 1);
+                addition = 0;
+                multiplier = 1;
                 if (*weightspec == '+')
                 {
                     addition = hfst_strtoweight(weightspec + 1);
-- 
2.43.0


From 5627367dd469813c83581f59a9a814684b680179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:40 +0000
Subject: [PATCH 55/65] fix: hfst-fst2strings: epsilons counted in length and
 prefix filters, beam cut off longer strings after a heavy final state

---
 tools/src/hfst-fst2strings.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/tools/src/hfst-fst2strings.cc b/tools/src/hfst-fst2strings.cc
index 0a4f668..d1fe93b 100644
--- a/tools/src/hfst-fst2strings.cc
+++ b/tools/src/hfst-fst2strings.cc
@@ -322,8 +322,14 @@ class Callback : public hfst::ExtractStringsCb
         for (StringPairVector::const_iterator it = path.second.begin();
              it != path.second.end(); it++)
         {
-            istring.append(it->first);
-            ostring.append(it->second);
+            if (!hfst::is_epsilon(it->first))
+            {
+                istring.append(it->first);
+            }
+            if (!hfst::is_epsilon(it->second))
+            {
+                ostring.append(it->second);
+            }
         }
         float weight = path.first;
 
@@ -375,8 +381,9 @@ class Callback : public hfst::ExtractStringsCb
         }
         if (max_weight >= 0 && weight > (max_weight + beam))
         {
-            return RetVal(true, false);
-            // continue searching, break off this path
+            // continue searching, break off this path unless the weight
+            // includes a final weight, which longer paths do not share
+            return RetVal(true, final);
         }
         // the path passed the checks. Print it if it is final
         if (final)
-- 
2.43.0


From c680883bed81e539190780cf141d317a92f4bffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:40 +0000
Subject: [PATCH 56/65] fix: hfst-insert-freely: only the first transducer was
 handled, a single symbol crashed

---
 tools/src/hfst-insert-freely.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tools/src/hfst-insert-freely.cc b/tools/src/hfst-insert-freely.cc
index 6bb2cb0..70e7272 100644
--- a/tools/src/hfst-insert-freely.cc
+++ b/tools/src/hfst-insert-freely.cc
@@ -201,6 +201,10 @@ parse_options(int argc, char** argv)
                       "if you REALLY want to replace epsilons with something, "
                       "use @0@ or %s", hfst::internal_epsilon.c_str());
               }
+            if (symbol_pair == NULL) // a single symbol
+              {
+                symbol_pair = new StringPair(label, label);
+              }
             break;
           }
           case 'H':
@@ -229,8 +233,6 @@ process_stream(HfstInputStream& instream, HfstOutputStream& outstream)
         transducer_n++;
         HfstTransducer trans(instream);
         char* inputname = hfst_get_name(trans, inputfilename);
-        if (transducer_n==1)
-        {
 //            If harmonize is true, then identity and unknown symbols in the
 //    transducer will be exapanded byt the symbols in symbol
 //    pair. Otherwise they aren't.
@@ -239,10 +241,9 @@ process_stream(HfstInputStream& instream, HfstOutputStream& outstream)
 
 // StringPair("a", "a")
 
-          trans.insert_freely(*symbol_pair, harmonise_flags);
-          hfst_set_name(trans, trans, "insert-freely");
-          hfst_set_formula(trans, trans, "Id");
-        }
+        trans.insert_freely(*symbol_pair, harmonise_flags);
+        hfst_set_name(trans, trans, "insert-freely");
+        hfst_set_formula(trans, trans, "Id");
         outstream << trans;
         free(inputname);
     }
-- 
2.43.0


From ee031a122dabc112106b4116a419bdda02b28a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:40 +0000
Subject: [PATCH 57/65] fix: hfst-substitute: with a file, only the first
 transducer was handled and @0@ labels were taken literally

---
 tools/src/hfst-substitute.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tools/src/hfst-substitute.cc b/tools/src/hfst-substitute.cc
index f065419..6518317 100644
--- a/tools/src/hfst-substitute.cc
+++ b/tools/src/hfst-substitute.cc
@@ -663,6 +663,8 @@ process_stream(HfstInputStream &instream)
             size_t line_n = 0;
             verbose_printf("reading substitutions from %s...\n",
                            from_file_name);
+            // the file is read again for every transducer
+            rewind(from_file);
             while (hfst_getline(&line, &len, from_file) != -1)
             {
                 line_n++;
@@ -691,6 +693,16 @@ process_stream(HfstInputStream &instream)
                 }
                 from_label = hfst_strndup(line, tab - line);
                 to_label = hfst_strndup(tab + 1, endstr - tab - 1);
+                if (strcmp(from_label, "@0@") == 0)
+                {
+                    free(from_label);
+                    from_label = hfst_strdup(hfst::internal_epsilon.c_str());
+                }
+                if (strcmp(to_label, "@0@") == 0)
+                {
+                    free(to_label);
+                    to_label = hfst_strdup(hfst::internal_epsilon.c_str());
+                }
                 from_pair = label_to_stringpair(from_label);
                 to_pair = label_to_stringpair(to_label);
                 if (strlen(from_label) == 0)
-- 
2.43.0


From a8c30904c93687d4f55833ecab8e67f5e95294d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:39 +0000
Subject: [PATCH 58/65] fix: lookup tools: Apertium input overran the line
 buffer on longer later lines

---
 tools/src/hfst-flookup.cc | 4 ++--
 tools/src/hfst-lookup.cc  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/src/hfst-flookup.cc b/tools/src/hfst-flookup.cc
index f0b871e..de04015 100644
--- a/tools/src/hfst-flookup.cc
+++ b/tools/src/hfst-flookup.cc
@@ -1151,9 +1151,9 @@ line_to_lookup_path(char **s, hfst::HfstStrings2FstTokenizer &tok,
             }
         } // for each character in input
         vector<string> *path = string_to_utf8(sp);
-        free(*s);
-        *s = sp;
+        free(sp);
         rv->second = *path;
+        delete path;
         break;
     }
     default:
diff --git a/tools/src/hfst-lookup.cc b/tools/src/hfst-lookup.cc
index b55a8f3..72e8763 100644
--- a/tools/src/hfst-lookup.cc
+++ b/tools/src/hfst-lookup.cc
@@ -1165,9 +1165,9 @@ line_to_lookup_path(char **s, hfst::HfstStrings2FstTokenizer &tok,
             }
         } // for each character in input
         vector<string> *path = string_to_utf8(sp);
-        free(*s);
-        *s = sp;
+        free(sp);
         rv->second = *path;
+        delete path;
         break;
     }
     default:
-- 
2.43.0


From 29000cb745fefd2e94e3032026c5e297a3f18f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:39 +0000
Subject: [PATCH 59/65] fix: lookup tools: spaced input was never split at the
 spaces

---
 tools/src/hfst-flookup.cc | 10 +++++-----
 tools/src/hfst-lookup.cc  | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/tools/src/hfst-flookup.cc b/tools/src/hfst-flookup.cc
index de04015..5108e13 100644
--- a/tools/src/hfst-flookup.cc
+++ b/tools/src/hfst-flookup.cc
@@ -1022,14 +1022,14 @@ string_to_utf8(char *p)
     return path;
 }
 
-/* Add a '\' in front of ':', ' ' and '\'. */
+/* Add a '\' in front of ':', '\' and, if \a spaces, ' '. */
 static std::string
-escape_special_characters(char *s)
+escape_special_characters(char *s, bool spaces)
 {
     std::string retval;
     for (unsigned int i = 0; s[i] != '\0'; i++)
     {
-        if (s[i] == ':' || s[i] == '\\' || s[i] == ' ')
+        if (s[i] == ':' || s[i] == '\\' || (spaces && s[i] == ' '))
             retval.append(1, '\\');
         retval.append(1, s[i]);
     }
@@ -1060,7 +1060,7 @@ line_to_lookup_path(char **s, hfst::HfstStrings2FstTokenizer &tok,
         break;
         */
 
-        std::string S = escape_special_characters(*s);
+        std::string S = escape_special_characters(*s, false);
 
         StringPairVector spv = tok.tokenize_string_pair(S, true);
 
@@ -1079,7 +1079,7 @@ line_to_lookup_path(char **s, hfst::HfstStrings2FstTokenizer &tok,
         }
         else
         {
-            std::string S = escape_special_characters(*s);
+            std::string S = escape_special_characters(*s, true);
 
             StringPairVector spv = tok.tokenize_string_pair(S, false);
 
diff --git a/tools/src/hfst-lookup.cc b/tools/src/hfst-lookup.cc
index 72e8763..410db2c 100644
--- a/tools/src/hfst-lookup.cc
+++ b/tools/src/hfst-lookup.cc
@@ -1036,14 +1036,14 @@ string_to_utf8(char *p)
     return path;
 }
 
-/* Add a '\' in front of ':', ' ' and '\'. */
+/* Add a '\' in front of ':', '\' and, if \a spaces, ' '. */
 static std::string
-escape_special_characters(char *s)
+escape_special_characters(char *s, bool spaces)
 {
     std::string retval;
     for (unsigned int i = 0; s[i] != '\0'; i++)
     {
-        if (s[i] == ':' || s[i] == '\\' || s[i] == ' ')
+        if (s[i] == ':' || s[i] == '\\' || (spaces && s[i] == ' '))
             retval.append(1, '\\');
         retval.append(1, s[i]);
     }
@@ -1074,7 +1074,7 @@ line_to_lookup_path(char **s, hfst::HfstStrings2FstTokenizer &tok,
         break;
         */
 
-        std::string S = escape_special_characters(*s);
+        std::string S = escape_special_characters(*s, false);
 
         StringPairVector spv = tok.tokenize_string_pair(S, true);
 
@@ -1093,7 +1093,7 @@ line_to_lookup_path(char **s, hfst::HfstStrings2FstTokenizer &tok,
         }
         else
         {
-            std::string S = escape_special_characters(*s);
+            std::string S = escape_special_characters(*s, true);
 
             StringPairVector spv = tok.tokenize_string_pair(S, false);
 
-- 
2.43.0


From 9d9174c5157da01919abbdcaaeb6d69b3f075f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:39 +0000
Subject: [PATCH 60/65] fix: lookup tools: multicharacter symbols of the output
 side or the alphabet were split in the input

---
 tools/src/hfst-flookup.cc | 18 ++++++++++++------
 tools/src/hfst-lookup.cc  | 18 ++++++++++++------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/tools/src/hfst-flookup.cc b/tools/src/hfst-flookup.cc
index 5108e13..8773d64 100644
--- a/tools/src/hfst-flookup.cc
+++ b/tools/src/hfst-flookup.cc
@@ -1645,12 +1645,18 @@ process_stream(HfstInputStream &inputstream, FILE *outstream)
                     if (mcs == hfst::internal_unknown
                         || mcs == hfst::internal_identity)
                         id_or_unk_seen = true;
-                    if (mcs.size() > 1)
-                    {
-                        mc_symbols.push_back(mcs);
-                        verbose_printf("multicharacter symbol: %s\n",
-                                       mcs.c_str());
-                    }
+                }
+            }
+            // (also those that are only in the output or the alphabet)
+            const hfst::StringSet &alphabet = basic.get_alphabet();
+            for (hfst::StringSet::const_iterator it = alphabet.begin();
+                 it != alphabet.end(); it++)
+            {
+                if (it->size() > 1)
+                {
+                    mc_symbols.push_back(*it);
+                    verbose_printf("multicharacter symbol: %s\n",
+                                   it->c_str());
                 }
             }
             cascade_mut.push_back(basic);
diff --git a/tools/src/hfst-lookup.cc b/tools/src/hfst-lookup.cc
index 410db2c..d964696 100644
--- a/tools/src/hfst-lookup.cc
+++ b/tools/src/hfst-lookup.cc
@@ -1901,12 +1901,18 @@ process_stream(HfstInputStream &inputstream, FILE *outstream)
                     if (mcs == hfst::internal_unknown
                         || mcs == hfst::internal_identity)
                         id_or_unk_seen = true;
-                    if (mcs.size() > 1)
-                    {
-                        mc_symbols.push_back(mcs);
-                        verbose_printf("multicharacter symbol: %s\n",
-                                       mcs.c_str());
-                    }
+                }
+            }
+            // (also those that are only in the output or the alphabet)
+            const hfst::StringSet &alphabet = basic.get_alphabet();
+            for (hfst::StringSet::const_iterator it = alphabet.begin();
+                 it != alphabet.end(); it++)
+            {
+                if (it->size() > 1)
+                {
+                    mc_symbols.push_back(*it);
+                    verbose_printf("multicharacter symbol: %s\n",
+                                   it->c_str());
                 }
             }
             cascade_mut.push_back(basic);
-- 
2.43.0


From ab364054714ef8c59683aeb6ffc9f1aa05b0d769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:39 +0000
Subject: [PATCH 61/65] fix: lookup tools: CG output of long analyses was cut
 off or overran its buffer

---
 tools/src/hfst-flookup.cc | 7 ++++++-
 tools/src/hfst-lookup.cc  | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/tools/src/hfst-flookup.cc b/tools/src/hfst-flookup.cc
index 8773d64..0455dd6 100644
--- a/tools/src/hfst-flookup.cc
+++ b/tools/src/hfst-flookup.cc
@@ -686,9 +686,14 @@ lookup_printf(const char *format, const HfstOneLevelPath *input,
             {
                 space += lookup_len;
             }
+            else if (*f == 'b' || *f == 'a')
+            {
+                space += lookup_len;
+            }
             else if (*f == 'w')
             {
-                space += strlen("0.012345678901234567890");
+                // the longest float has 39 digits, a point and 6 decimals
+                space += 64;
             }
             else if (*f == '\0')
             {
diff --git a/tools/src/hfst-lookup.cc b/tools/src/hfst-lookup.cc
index d964696..2184f1c 100644
--- a/tools/src/hfst-lookup.cc
+++ b/tools/src/hfst-lookup.cc
@@ -700,9 +700,14 @@ lookup_printf(const char *format, const HfstOneLevelPath *input,
             {
                 space += lookup_len;
             }
+            else if (*f == 'b' || *f == 'a')
+            {
+                space += lookup_len;
+            }
             else if (*f == 'w')
             {
-                space += strlen("0.012345678901234567890");
+                // the longest float has 39 digits, a point and 6 decimals
+                space += 64;
             }
             else if (*f == '\0')
             {
-- 
2.43.0


From b00eb53e0bc7f2b7aa3ff71e3d60220e87710bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:39 +0000
Subject: [PATCH 62/65] fix: hfst-flookup: CG output without a tag had an empty
 base form

---
 tools/src/hfst-flookup.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/hfst-flookup.cc b/tools/src/hfst-flookup.cc
index 0455dd6..c05d96f 100644
--- a/tools/src/hfst-flookup.cc
+++ b/tools/src/hfst-flookup.cc
@@ -841,7 +841,7 @@ lookup_printf(const char *format, const HfstOneLevelPath *input,
         if (anal_start == NULL)
         {
             // give up trying
-            anal_start = lookupform;
+            anal_start = lookup_end;
         }
         b = static_cast<char *>(
             calloc(sizeof(char), anal_start - lookupform + 1));
-- 
2.43.0


From 372cc1fe8233ec8cd64357c278f6cb8bb58cede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:39 +0000
Subject: [PATCH 63/65] fix: hfst-lookup: composition cascades lost analyses
 with epsilons or flag diacritics

---
 tools/src/hfst-lookup.cc | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/tools/src/hfst-lookup.cc b/tools/src/hfst-lookup.cc
index 2184f1c..36275e6 100644
--- a/tools/src/hfst-lookup.cc
+++ b/tools/src/hfst-lookup.cc
@@ -1530,6 +1530,24 @@ lookup_simple(const HfstOneLevelPath &s, HfstBasicTransducer &t,
     return results;
 }
 
+/* A result of one transducer as input for the next one: epsilons and flag
+   diacritics are not part of the string. */
+static HfstOneLevelPath
+result_to_input(const HfstOneLevelPath &result)
+{
+    HfstOneLevelPath input;
+    input.first = result.first;
+    for (StringVector::const_iterator it = result.second.begin();
+         it != result.second.end(); it++)
+    {
+        if (!is_epsilon(*it) && !FdOperation::is_diacritic(*it))
+        {
+            input.second.push_back(*it);
+        }
+    }
+    return input;
+}
+
 HfstOneLevelPaths *
 lookup_cascading(const HfstOneLevelPath &s, vector<HfstTransducer> &cascade,
                  bool *infinity)
@@ -1549,7 +1567,7 @@ lookup_cascading(const HfstOneLevelPath &s, vector<HfstTransducer> &cascade,
                  it != results->end(); it++)
             {
                 HfstOneLevelPaths *one_result = lookup_simple(
-                    *it, cascade[i], infinity, ((i + 1) == cascade.size()),
+                    result_to_input(*it), cascade[i], infinity, ((i + 1) == cascade.size()),
                     false, &s, true);
                 // HfstOneLevelPaths * one_result = lookup_simple(*it,
                 // cascade[i], infinity);
@@ -1659,7 +1677,7 @@ lookup_cascading(const HfstOneLevelPath &s,
                 //  if last transducer in cascade, print results if
                 //  --print-pairs is requested
                 HfstOneLevelPaths *one_result = lookup_simple(
-                    *it, cascade[i], infinity, ((i + 1) == cascade.size()),
+                    result_to_input(*it), cascade[i], infinity, ((i + 1) == cascade.size()),
                     false, &s, true);
                 for (HfstOneLevelPaths::const_iterator IT
                      = one_result->begin();
-- 
2.43.0


From e15494cb0fa6f45d2c81481807860996660e5a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:40 +0000
Subject: [PATCH 64/65] fix: hfst-optimized-lookup: with -u, duplicates got a
 wrong weight and the beam was not relative to the best analysis

---
 tools/src/hfst-optimized-lookup.cc | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/tools/src/hfst-optimized-lookup.cc b/tools/src/hfst-optimized-lookup.cc
index 65e3171..2a63f3b 100644
--- a/tools/src/hfst-optimized-lookup.cc
+++ b/tools/src/hfst-optimized-lookup.cc
@@ -1748,8 +1748,7 @@ TransducerWUniq::note_analysis(SymbolNumber *whole_output_string)
     }
     if ((display_map.count(str) == 0) || (display_map[str] > current_weight))
     { // if there isn't an entry yet or we've found a lower weight
-        display_map.insert(
-            std::pair<std::string, Weight>(str, current_weight));
+        display_map[str] = current_weight;
     }
 }
 
@@ -1764,8 +1763,7 @@ TransducerWFdUniq::note_analysis(SymbolNumber *whole_output_string)
     }
     if ((display_map.count(str) == 0) || (display_map[str] > current_weight))
     { // if there isn't an entry yet or we've found a lower weight
-        display_map.insert(
-            std::pair<std::string, Weight>(str, current_weight));
+        display_map[str] = current_weight;
     }
 }
 
@@ -1878,17 +1876,18 @@ TransducerWUniq::printAnalyses(std::string prepend)
     DisplayMap::iterator it = display_map.begin();
     while (it != display_map.end())
     {
-        if (it == display_map.begin())
-            lowest_weight = it->second;
-        if (beam < 0 || it->second <= (lowest_weight + beam))
-            weight_sorted_map.insert(
-                std::pair<Weight, std::string>((*it).second, (*it).first));
+        weight_sorted_map.insert(
+            std::pair<Weight, std::string>((*it).second, (*it).first));
         ++it;
     }
     std::multimap<Weight, std::string>::iterator display_it
         = weight_sorted_map.begin();
     while ((display_it != weight_sorted_map.end()) && (i < maxAnalyses))
     {
+        if (display_it == weight_sorted_map.begin())
+            lowest_weight = display_it->first;
+        if (beam >= 0 && display_it->first > (lowest_weight + beam))
+            break;
         if (outputType == xerox)
         {
 #ifdef WINDOWS
@@ -1963,17 +1962,18 @@ TransducerWFdUniq::printAnalyses(std::string prepend)
     DisplayMap::iterator it;
     for (it = display_map.begin(); it != display_map.end(); it++)
     {
-        if (it == display_map.begin())
-            lowest_weight = it->second;
-        if (beam < 0 || it->second <= (lowest_weight + beam))
-            weight_sorted_map.insert(
-                std::pair<Weight, std::string>((*it).second, (*it).first));
+        weight_sorted_map.insert(
+            std::pair<Weight, std::string>((*it).second, (*it).first));
     }
     std::multimap<Weight, std::string>::iterator display_it;
     for (display_it = weight_sorted_map.begin();
          display_it != weight_sorted_map.end() && i < maxAnalyses;
          display_it++, i++)
     {
+        if (display_it == weight_sorted_map.begin())
+            lowest_weight = display_it->first;
+        if (beam >= 0 && display_it->first > (lowest_weight + beam))
+            break;
         if (outputType == xerox)
         {
 #ifdef WINDOWS
-- 
2.43.0


From b74c624126f14ee6f3cb6e1a55e7fabd5bfe772e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:45 +0000
Subject: [PATCH 65/65] fix: two-level grammars: do not take 0:0 for a symbol
 pair of the alphabet

---
 libhfst/src/parsers/htwolcpre2-parser.yy | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libhfst/src/parsers/htwolcpre2-parser.yy b/libhfst/src/parsers/htwolcpre2-parser.yy
index 1e4a494..0f3603d 100644
--- a/libhfst/src/parsers/htwolcpre2-parser.yy
+++ b/libhfst/src/parsers/htwolcpre2-parser.yy
@@ -324,6 +324,10 @@ void insert_alphabet_pairs(const HandyDeque<std::string> &symbol_queue,
 	  std::string input_symbol = *it == "__HFST_TWOLC_#" ? "#" : *it;
 	  ++(++it);
 	  std::string output_symbol = *it == "__HFST_TWOLC_#" ? "#" : *it;
+	  // The pair 0:0 is the empty string, not a symbol pair.
+	  if (input_symbol == "__HFST_TWOLC_0" &&
+	      output_symbol == "__HFST_TWOLC_0")
+	    { continue; }
 	  symbol_pair_set.insert(SymbolPair(input_symbol,output_symbol));
 	}
     }
-- 
2.43.0

