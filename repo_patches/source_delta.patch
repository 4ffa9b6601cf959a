From a4c4e5c3134bdea7cb71bcc62ddeec31442bf63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:29 +0000
Subject: [PATCH 01/97] fix: shuffle() keeps alphabet symbols that do not occur
 in transitions

The result of shuffle() lost every symbol of the operands' alphabets that was on
no transition, so that identity symbols in the result matched those symbols.
---
 libhfst/src/HfstTransducer.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 62f5245..d38e5ae 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -4733,6 +4733,11 @@ HfstTransducer::shuffle(const HfstTransducer &another, bool)
     StringSet this_alphabet = this_basic.get_alphabet();
     StringSet another_alphabet = another_basic.get_alphabet();
 
+    // Symbols that do not occur in transitions must be retained, else
+    // identities in the result would match them
+    StringSet original_alphabet = this_alphabet;
+    original_alphabet.insert(another_alphabet.begin(), another_alphabet.end());
+
     // Encode first transducer, i.e. prefix each symbol with "@1"
     shuffle_coding_case = ENCODE_FIRST_SHUFFLE_ARGUMENT;
     this_basic.substitute(&code_symbols_for_shuffle);
@@ -4793,6 +4798,7 @@ HfstTransducer::shuffle(const HfstTransducer &another, bool)
     // also remember to remove the prefixed symbols from the alphabet
     this1_basic.remove_symbols_from_alphabet(this_alphabet);
     this1_basic.remove_symbols_from_alphabet(another_alphabet);
+    this1_basic.add_symbols_to_alphabet(original_alphabet);
 
     // Convert once again to HfstTransducer
     HfstTransducer this_finally(this1_basic, this->get_type());
-- 
2.43.0


From c56359fe514d0702bf58698e304c7a4e7a04617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:33 +0000
Subject: [PATCH 02/97] fix: converting a basic transducer to log OpenFst keeps
 the source states of transitions

---
 libhfst/src/implementations/ConvertLogWeightTransducer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libhfst/src/implementations/ConvertLogWeightTransducer.cc b/libhfst/src/implementations/ConvertLogWeightTransducer.cc
index 2441430..e45cd77 100644
--- a/libhfst/src/implementations/ConvertLogWeightTransducer.cc
+++ b/libhfst/src/implementations/ConvertLogWeightTransducer.cc
@@ -267,6 +267,7 @@ ConversionFunctions::hfst_basic_transducer_to_log_ofst(
                             hfst_state_to_state_id(tr_it->get_target_state(),
                                                    state_map, t)));
         }
+        source_state++;
     }
 
     // Go through the final states
-- 
2.43.0


From 0ca35b5dc69c8eaa21fdcf521db8b377c51faa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:15 +0000
Subject: [PATCH 03/97] fix: reading back an optimized-lookup transducer does
 not index the table with non-input symbols

---
 libhfst/src/implementations/optimized-lookup/transducer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhfst/src/implementations/optimized-lookup/transducer.cc b/libhfst/src/implementations/optimized-lookup/transducer.cc
index 7919015..c08bbb1 100644
--- a/libhfst/src/implementations/optimized-lookup/transducer.cc
+++ b/libhfst/src/implementations/optimized-lookup/transducer.cc
@@ -919,7 +919,7 @@ TransitionTableIndexSet Transducer::get_transitions_from_state(
                     }
                     ++transition_i;
                 }
-            } else { // not a flag
+            } else if (symbol < header->input_symbol_count()) { // not a flag
                 const TransitionIndex& test_transition_index =
                     get_index(state_index+1+symbol);
                 if(test_transition_index.matches(symbol)) {
-- 
2.43.0


From ff5af40af8737c3dcc79925b2b9c4023b1958f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:31 +0000
Subject: [PATCH 04/97] fix: name and properties of a transducer no longer leak
 to the following ones in an input stream

---
 libhfst/src/HfstInputStream.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libhfst/src/HfstInputStream.cc b/libhfst/src/HfstInputStream.cc
index e262f77..897286e 100644
--- a/libhfst/src/HfstInputStream.cc
+++ b/libhfst/src/HfstInputStream.cc
@@ -661,6 +661,10 @@ namespace hfst
   void HfstInputStream::process_header_data
   (StringPairVector &header_data, bool )
   {
+    // forget what the header of the previous transducer said
+    name.clear();
+    props.clear();
+
     if (header_data.size() < 2) {
       HFST_THROW_MESSAGE(TransducerHeaderException,
                          "Hfst header has too few attributes");
-- 
2.43.0


From 01fe40395451b0d53e92b50c9633f3e97b3b840e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:49 +0000
Subject: [PATCH 05/97] fix: reading a truncated or malformed foma transducer
 no longer overruns the line buffer

---
 libhfst/src/implementations/FomaTransducer.cc | 42 +++++++++++++------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/libhfst/src/implementations/FomaTransducer.cc b/libhfst/src/implementations/FomaTransducer.cc
index 2afc03d..1f7e3cf 100644
--- a/libhfst/src/implementations/FomaTransducer.cc
+++ b/libhfst/src/implementations/FomaTransducer.cc
@@ -860,13 +860,13 @@ namespace hfst { namespace implementations {
 
     // HFST additions
 
-    static int io_gets(FILE *infile, char *target);
+    static int io_gets(FILE *infile, char *target, int size);
     static inline int explode_line (char *buf, int *values);
 
     /* Read foma transducer . */
     fsm * FomaTransducer::read_net(FILE *infile) {
 
-    const unsigned int READ_BUF_SIZE=4096;
+    const int READ_BUF_SIZE=4096;
     char buf[READ_BUF_SIZE];
     fsm *net;
     struct fsm_state * fsm_;
@@ -875,7 +875,7 @@ namespace hfst { namespace implementations {
     int i, items, new_symbol_number, laststate, lineint[5], *cm;
     char last_final = 0;
 
-    if (io_gets(infile, buf) == 0) {
+    if (io_gets(infile, buf, READ_BUF_SIZE) == 0) {
         return NULL;
     }
 
@@ -887,13 +887,13 @@ namespace hfst { namespace implementations {
         printf("File format error foma!\n");
         return NULL;
     }
-    io_gets(infile, buf);
+    io_gets(infile, buf, READ_BUF_SIZE);
     if (strcmp(buf, "##props##") != 0) {
         printf("File format error props!\n");
         return NULL;
     }
     /* Properties */
-    io_gets(infile, buf);
+    io_gets(infile, buf, READ_BUF_SIZE);
     sscanf(buf, "%i %i %i %i %i " LONG_LONG_SPECIFIER " %i %i %i %i %i %i %s",
            &net->arity,
            &net->arccount,
@@ -912,7 +912,7 @@ namespace hfst { namespace implementations {
     // empty name we've written earlier and use HFST3's name scheme
     // for everything. NB: There's a limit of 40 chars for net->name.
     //strcpy(net->name, buf);
-    io_gets(infile, buf);
+    io_gets(infile, buf, READ_BUF_SIZE);
 
     /* Sigma */
     if (strcmp(buf, "##sigma##") != 0) {
@@ -920,9 +920,13 @@ namespace hfst { namespace implementations {
         return NULL;
     }
     for (;;) {
-      io_gets(infile, buf);
+      io_gets(infile, buf, READ_BUF_SIZE);
         if (buf[0] == '#') break;
         new_symbol = strstr(buf, " ");
+        if (new_symbol == NULL) {
+            printf("File format error sigma!\n");
+            return NULL;
+        }
         new_symbol[0] = '\0';
         new_symbol++;
         sscanf(buf,"%i", &new_symbol_number);
@@ -933,15 +937,24 @@ namespace hfst { namespace implementations {
         printf("File format error!\n");
         return NULL;
     }
+    if (net->linecount < 1) {
+        printf("File format error props!\n");
+        return NULL;
+    }
     net->states = (fsm_state*) malloc(net->linecount*sizeof(struct fsm_state)); // error
     // DEBUG
     //fprintf(stderr, "Reserved space for %i state lines\n", net->linecount);
     fsm_ = net->states;
     laststate = -1;
     for (i=0; ;i++) {
-      io_gets(infile, buf);
+      io_gets(infile, buf, READ_BUF_SIZE);
         if (buf[0] == '#') break;
 
+        if (i >= net->linecount) {
+            printf("File format error\n");
+            return NULL;
+        }
+
         /* scanf is just too slow here */
         //items = sscanf(buf, "%i %i %i %i %i",&lineint[0],
         //&lineint[1], &lineint[2], &lineint[3], &lineint[4]);
@@ -998,7 +1011,10 @@ namespace hfst { namespace implementations {
         cmatrix_init(net);
         cm = net->medlookup->confusion_matrix;
         for (;;) {
-      io_gets(infile, buf);
+            if (io_gets(infile, buf, READ_BUF_SIZE) == 0) {
+                printf("File format error!\n");
+                return NULL;
+            }
             if (buf[0] == '#') break;
             sscanf(buf,"%i", &i);
             *cm = i;
@@ -1012,17 +1028,17 @@ namespace hfst { namespace implementations {
     return(net);
 }
 
-static int io_gets(FILE *infile, char *target) {
+static int io_gets(FILE *infile, char *target, int size) {
     int i;
     int c = getc(infile);
-    for (i = 0; c != '\n' && c != '\0'; i++) {
+    for (i = 0; c != '\n' && c != '\0' && c != EOF && i < size - 1; i++) {
         *(target+i) = c;
         c = getc(infile);
     }
     *(target+i) = '\0';
 
     // Windows...
-    if (*(target+i-1) == '\r')
+    if (i > 0 && *(target+i-1) == '\r')
       *(target+i-1) = '\0';
 
     if (c == '\0')
@@ -1046,6 +1062,8 @@ static inline int explode_line (char *buf, int *values) {
             items++;
             j++;
             i = j;
+            if (items == 5)
+                return 6; /* too many values */
         }
     }
     return(items);
-- 
2.43.0


From 751b7451c2533e8bcc5cbee2fe97a55dc583843d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:51 +0000
Subject: [PATCH 06/97] fix: reading a truncated SFST transducer raises an HFST
 exception instead of aborting or losing its alphabet

---
 back-ends/sfst/alphabet.cc                    | 15 ++++++++-------
 back-ends/sfst/fst.cc                         | 16 +++++++++-------
 libhfst/src/implementations/SfstTransducer.cc |  7 +++----
 3 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/back-ends/sfst/alphabet.cc b/back-ends/sfst/alphabet.cc
index 7203815..57b1317 100644
--- a/back-ends/sfst/alphabet.cc
+++ b/back-ends/sfst/alphabet.cc
@@ -645,12 +645,13 @@ namespace SFST {
 
     // read the symbol mapping
     Character n=0;
-    read_num(&n, sizeof(n), file);
+    if (read_num(&n, sizeof(n), file) != sizeof(n))
+      throw "Error1 occurred while reading alphabet!\n";
     for( unsigned i=0; i<n; i++) {
       char buffer[BUFFER_SIZE];
       Character c;
-      read_num(&c, sizeof(c), file);
-      if (!read_string(buffer, BUFFER_SIZE, file) ||
+      if (read_num(&c, sizeof(c), file) != sizeof(c) ||
+          !read_string(buffer, BUFFER_SIZE, file) ||
           feof(file) || ferror(file))
         throw "Error1 occurred while reading alphabet!\n";
 
@@ -662,13 +663,13 @@ namespace SFST {
     }
 
     // read the character pairs
-    read_num(&n, sizeof(n), file);
-    if (ferror(file))
+    if (read_num(&n, sizeof(n), file) != sizeof(n) || ferror(file))
       throw "Error2 occurred while reading alphabet!\n";
     for( unsigned i=0; i<n; i++) {
       Character lc, uc;
-      read_num(&lc, sizeof(lc), file);
-      read_num(&uc, sizeof(uc), file);
+      if (read_num(&lc, sizeof(lc), file) != sizeof(lc) ||
+          read_num(&uc, sizeof(uc), file) != sizeof(uc))
+        throw "Error3 occurred while reading alphabet!\n";
       insert(Label(lc, uc));
     }
     if (ferror(file))
diff --git a/back-ends/sfst/fst.cc b/back-ends/sfst/fst.cc
index fb8bce6..791f94f 100644
--- a/back-ends/sfst/fst.cc
+++ b/back-ends/sfst/fst.cc
@@ -882,7 +882,8 @@ namespace SFST {
   /*                                                                 */
   /*******************************************************************/
 
-  static void read_node( FILE *file, Node *node, Node **p, Transducer *a )
+  static void read_node( FILE *file, Node *node, Node **p, unsigned int n_nodes,
+                         Transducer *a )
   {
     char c;
     if (fread(&c,sizeof(c),1,file) != 1) // HFST addition: checking return value of fread
@@ -904,12 +905,14 @@ namespace SFST {
         throw "read_node: fread failed";
       if (ferror(file))
         throw "Error encountered while reading transducer from file";
+      if (t >= n_nodes)
+        throw "read_node: invalid node index";
       if (p[t])
         node->add_arc( Label(lc,uc), p[t], a );
       else {
         p[t] = a->new_node();
         node->add_arc( Label(lc,uc), p[t], a );
-        read_node(file, p[t], p, a );
+        read_node(file, p[t], p, n_nodes, a );
       }
     }
   }
@@ -934,12 +937,11 @@ namespace SFST {
     if (ferror(file))
       throw "Error encountered while reading transducer from file";
 
-    Node **p=new Node*[n];  // maps indices to nodes
+    if (n == 0)
+      throw "read_transducer_binary: no nodes";
+    vector<Node*> p(n, (Node*)NULL);  // maps indices to nodes
     p[0] = root_node();
-    for( unsigned int i=1; i<n; i++)
-      p[i] = NULL;
-    read_node( file, root_node(), p, this );
-    delete[] p;
+    read_node( file, root_node(), &p[0], n, this );
 
     alphabet.read(file);
 
diff --git a/libhfst/src/implementations/SfstTransducer.cc b/libhfst/src/implementations/SfstTransducer.cc
index fc1c0e3..e53f522 100644
--- a/libhfst/src/implementations/SfstTransducer.cc
+++ b/libhfst/src/implementations/SfstTransducer.cc
@@ -155,11 +155,10 @@ namespace hfst { namespace implementations {
     Transducer * t = NULL;
     try
       {
-        // DEBUGGING
-        assert (stream_get() == 'a');
-        stream_unget('a');
+        if (not is_fst()) {
+          HFST_THROW(TransducerHasWrongTypeException); }
 
-        Transducer * t = new Transducer(input_file,true);
+        t = new Transducer(input_file,true);
 
         if (not is_minimal) {
           t->minimised = false;
-- 
2.43.0


From 1b82b06d793d99cbe8d1cc3e7502824f8575b1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:11 +0000
Subject: [PATCH 07/97] fix: reading a foma transducer cut right after the HFST
 header raises an exception instead of returning a null transducer

---
 libhfst/src/implementations/FomaTransducer.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/implementations/FomaTransducer.cc b/libhfst/src/implementations/FomaTransducer.cc
index 1f7e3cf..07825ae 100644
--- a/libhfst/src/implementations/FomaTransducer.cc
+++ b/libhfst/src/implementations/FomaTransducer.cc
@@ -164,8 +164,9 @@ namespace hfst { namespace implementations {
 
   fsm * FomaInputStream::read_transducer()
   {
-    if (is_eof())
-      return NULL;
+    if (is_eof()) {
+      HFST_THROW(StreamIsClosedException);
+    }
     fsm * t = FomaTransducer::read_net(input_file);
     if (t == NULL) {
       HFST_THROW(NotTransducerStreamException);
-- 
2.43.0


From 0db6cc0d05f76cf9b329a87474c2bf1344f5375e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:08 +0000
Subject: [PATCH 08/97] fix: AT&T reader handles fields and lines of any length
 and input streams, and rejects bad state numbers

---
 .../implementations/HfstBasicTransducer.cc    | 120 ++++++++++++------
 1 file changed, 81 insertions(+), 39 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 428312b..cea8dc9 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -10,6 +10,10 @@
 
 #include "HfstBasicTransducer.h"
 
+#include <climits>
+#include <cstdlib>
+#include <sstream>
+
 #ifndef MAIN_TEST
 
 namespace hfst
@@ -1717,29 +1721,73 @@ HfstBasicTransducer::write_in_att_format_number(FILE *file,
     }
 }
 
+// If \a str is a state number, store it to \a state and return true.
+// Else, return false.
+static bool
+parse_state_number(const std::string &str, unsigned int &state)
+{
+    if (str.empty() || str.size() > 10
+        || str.find_first_not_of("0123456789") != std::string::npos)
+    {
+        return false;
+    }
+    unsigned long number = strtoul(str.c_str(), NULL, 10);
+    if (number >= UINT_MAX)
+    {
+        return false;
+    }
+    state = (unsigned int)number;
+    return true;
+}
+
+// Get the next line, of any length and without its newline, from \a is
+// (if \a file == NULL) or from \a file. Return false at the end of input.
+static bool
+get_next_line(std::istream &is, FILE *file, std::string &line)
+{
+    line.clear();
+    if (file == NULL)
+    { /* we use streams */
+        return !std::getline(is, line).fail();
+    }
+    /* we use FILEs */
+    int c = getc(file);
+    if (c == EOF)
+    {
+        return false;
+    }
+    while (c != EOF && c != '\n')
+    {
+        line.push_back((char)c);
+        c = getc(file);
+    }
+    return true;
+}
+
 bool
 HfstBasicTransducer::add_att_line(char *line,
                                   const std::string &epsilon_symbol,
                                   bool warn_negs)
 {
     // scan one line that can have a maximum of five fields
-    char a1[100];
-    char a2[100];
-    char a3[100];
-    char a4[100];
-    char a5[100];
+    std::string a[5];
+    std::istringstream fields(line);
     // how many fields could be parsed
-    int n = sscanf(line, "%s%s%s%s%s", a1, a2, a3, a4, a5);
+    int n = 0;
+    while (n < 5 && (fields >> a[n]))
+    {
+        n++;
+    }
 
     // set value of weight
     float weight = 0;
     if (n == 2) // a final state line with weight
     {
-        weight = hfst::double_to_float(atof(a2));
+        weight = hfst::double_to_float(atof(a[1].c_str()));
     }
     if (n == 5) // a transition line with weight
     {
-        weight = hfst::double_to_float(atof(a5));
+        weight = hfst::double_to_float(atof(a[4].c_str()));
     }
     if ((weight < 0) && warn_negs)
     {
@@ -1748,13 +1796,26 @@ HfstBasicTransducer::add_att_line(char *line,
 
     if (n == 1 || n == 2) // a final state line
     {
-        set_final_weight(atoi(a1), weight);
+        unsigned int state = 0;
+        if (!parse_state_number(a[0], state))
+        {
+            return false;
+        }
+        set_final_weight(state, weight);
     }
 
     else if (n == 4 || n == 5)
     { // a transition line
-        std::string input_symbol = std::string(a3);
-        std::string output_symbol = std::string(a4);
+        unsigned int source = 0;
+        unsigned int target = 0;
+        if (!parse_state_number(a[0], source)
+            || !parse_state_number(a[1], target))
+        {
+            return false;
+        }
+
+        std::string input_symbol = a[2];
+        std::string output_symbol = a[3];
 
         // replace "@_SPACE_@"s with " " and "@0@"s with
         // "@_EPSILON_SYMBOL_@"
@@ -1773,8 +1834,8 @@ HfstBasicTransducer::add_att_line(char *line,
         if (epsilon_symbol.compare(output_symbol) == 0)
             output_symbol = "@_EPSILON_SYMBOL_@";
 
-        HfstBasicTransition tr(atoi(a2), input_symbol, output_symbol, weight);
-        add_transition(atoi(a1), tr);
+        HfstBasicTransition tr(target, input_symbol, output_symbol, weight);
+        add_transition(source, tr);
     }
 
     else
@@ -1816,34 +1877,15 @@ HfstBasicTransducer::read_in_att_format(std::istream &is, FILE *file,
     }
 
     HfstBasicTransducer retval;
-    char line[255];
-    while (true)
+    std::string line;
+    while (get_next_line(is, file, line))
     {
-
-        if (file == NULL)
-        { /* we use streams */
-            if (!is.getline(line, 255).eof())
-            {
-                break;
-            }
-        }
-        else
-        { /* we use FILEs */
-            if (NULL == fgets(line, 255, file))
-            {
-                break;
-            }
-        }
-
         linecount++;
 
         // an empty line signifying an empty transducer,
         // a special case that is accepted if it is the only
         // transducer in the stream
-        if ( // empty line with or without a newline
-            (line[0] == '\0') || (line[0] == '\n' && line[1] == '\0') ||
-            // windows newline
-            (line[0] == '\r' && line[1] == '\n' && line[2] == '\0'))
+        if (line.empty() || line == "\r") // windows newline
         {
 
             // make sure that the end-of-file is reached
@@ -1854,13 +1896,13 @@ HfstBasicTransducer::read_in_att_format(std::istream &is, FILE *file,
             break;
         }
 
-        if (*line == '-') // transducer separator line is "--"
+        if (line[0] == '-') // transducer separator line is "--"
             return retval;
 
-        if (!retval.add_att_line(line, epsilon_symbol, warn_negs))
+        if (!retval.add_att_line(const_cast<char *>(line.c_str()),
+                                 epsilon_symbol, warn_negs))
         {
-            std::string message(line);
-            HFST_THROW_MESSAGE(NotValidAttFormatException, message);
+            HFST_THROW_MESSAGE(NotValidAttFormatException, line);
         }
     }
     return retval;
-- 
2.43.0


From 0c48b2fcef2e57d4e4568923c76697a5da373917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:00 +0000
Subject: [PATCH 09/97] fix: prolog reader handles lines, names and symbols of
 any length and content, and rejects bad state numbers

---
 .../implementations/HfstBasicTransducer.cc    | 268 ++++++++++--------
 1 file changed, 144 insertions(+), 124 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index cea8dc9..3e9f07a 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -10,8 +10,10 @@
 
 #include "HfstBasicTransducer.h"
 
+#include <cctype>
 #include <climits>
 #include <cstdlib>
+#include <cstring>
 #include <sstream>
 
 #ifndef MAIN_TEST
@@ -910,10 +912,17 @@ HfstBasicTransducer::deprologize_symbol(const std::string &symbol)
     if (symbol == "?")
         return "@_UNKNOWN_SYMBOL_@";
     // remove the escaping backslash in front of a double quote and
-    // a double quote
-    std::string retval(symbol);
-    replace_all(retval, "\\\"", "\"");
-    replace_all(retval, "\\\\", "\\");
+    // a backslash
+    std::string retval;
+    for (size_t i = 0; i < symbol.size(); i++)
+    {
+        if (symbol[i] == '\\' && i + 1 < symbol.size()
+            && (symbol[i + 1] == '"' || symbol[i + 1] == '\\'))
+        {
+            i++;
+        }
+        retval.push_back(symbol[i]);
+    }
     return retval;
 }
 
@@ -1088,6 +1097,8 @@ HfstBasicTransducer::strip_quotes_from_both_sides(std::string &str)
 bool
 HfstBasicTransducer::strip_ending_parenthesis_and_comma(std::string &str)
 {
+    while (!str.empty() && isspace((unsigned char)str[str.length() - 1]))
+        str.erase(str.length() - 1);
     if (str.size() < 3)
         return false;
     if (str[str.length() - 2] != ')' || str[str.length() - 1] != '.')
@@ -1096,17 +1107,86 @@ HfstBasicTransducer::strip_ending_parenthesis_and_comma(std::string &str)
     return true;
 }
 
+// If \a str is a state number, store it to \a state and return true.
+// Else, return false.
+static bool
+parse_state_number(const std::string &str, unsigned int &state)
+{
+    if (str.empty() || str.size() > 10
+        || str.find_first_not_of("0123456789") != std::string::npos)
+    {
+        return false;
+    }
+    unsigned long number = strtoul(str.c_str(), NULL, 10);
+    if (number >= UINT_MAX)
+    {
+        return false;
+    }
+    state = (unsigned int)number;
+    return true;
+}
+
+// Get the next line, of any length and without its newline, from \a is
+// (if \a file == NULL) or from \a file. Return false at the end of input.
+static bool
+get_next_line(std::istream &is, FILE *file, std::string &line)
+{
+    line.clear();
+    if (file == NULL)
+    { /* we use streams */
+        return !std::getline(is, line).fail();
+    }
+    /* we use FILEs */
+    int c = getc(file);
+    if (c == EOF)
+    {
+        return false;
+    }
+    while (c != EOF && c != '\n')
+    {
+        line.push_back((char)c);
+        c = getc(file);
+    }
+    return true;
+}
+
+// If \a line starts at \a pos with \a prefix, move \a pos past it and return
+// true. Else, return false.
+static bool
+skip_prefix(const std::string &line, size_t &pos, const char *prefix)
+{
+    size_t length = strlen(prefix);
+    if (line.compare(pos, length, prefix) != 0)
+        return false;
+    pos += length;
+    return true;
+}
+
+// Get a non-empty field of \a line that starts at \a pos and ends in a comma
+// and move \a pos past the comma and whitespace.
+static bool
+get_prolog_field(const std::string &line, size_t &pos, std::string &field)
+{
+    size_t comma = line.find(',', pos);
+    if (comma == std::string::npos || comma == pos)
+        return false;
+    field = line.substr(pos, comma - pos);
+    pos = comma + 1;
+    while (pos < line.size() && isspace((unsigned char)line[pos]))
+        pos++;
+    return true;
+}
+
 bool
 HfstBasicTransducer::parse_prolog_network_line(const std::string &line,
                                                HfstBasicTransducer &graph)
 {
     // 'network(NAME).'
-    char namearr[100];
-    int n = sscanf(line.c_str(), "network(%s", namearr);
-    if (n != 1)
+    size_t pos = 0;
+    if (!skip_prefix(line, pos, "network("))
         return false;
 
-    std::string namestr(namearr);
+    std::string namestr = line.substr(pos);
     // strip the ending ")." from namestr
     if (!strip_ending_parenthesis_and_comma(namestr))
         return false;
@@ -1115,8 +1195,8 @@ HfstBasicTransducer::parse_prolog_network_line(const std::string &line,
     return true;
 }
 
-// Get positions of \a c in \a str. If \a esc is precedes
-// \a c, \a c is not included.
+// Get positions of \a c in \a str. If \a esc that is not itself escaped
+// precedes \a c, \a c is not included.
 std::vector<unsigned int>
 HfstBasicTransducer::get_positions_of_unescaped_char(const std::string &str,
                                                      char c, char esc)
@@ -1124,15 +1204,10 @@ HfstBasicTransducer::get_positions_of_unescaped_char(const std::string &str,
     std::vector<unsigned int> retval;
     for (unsigned int i = 0; i < (unsigned int)str.length(); i++)
     {
-        if (str[i] == c)
-        {
-            if (i == 0)
-                retval.push_back(i);
-            else if (str[i - 1] == esc)
-                ; // skip escaped chars
-            else
-                retval.push_back(i);
-        }
+        if (str[i] == esc)
+            i++; // skip escaped chars
+        else if (str[i] == c)
+            retval.push_back(i);
     }
     return retval;
 }
@@ -1246,35 +1321,40 @@ bool
 HfstBasicTransducer::parse_prolog_arc_line(const std::string &line,
                                            HfstBasicTransducer &graph)
 {
-    // symbolstr can also contain the weight
-    char namestr[100];
-    char sourcestr[100];
-    char targetstr[100];
-    char symbolstr[100];
-
-    int n = sscanf(line.c_str(), "arc(%[^,], %[^,], %[^,], %[^\t\n]", namestr,
-                   sourcestr, targetstr, symbolstr);
+    // 'arc(NAME, source, target, SYMBOLS).', symbols can also contain
+    // the weight
+    size_t pos = 0;
+    std::string namestr;
+    std::string sourcestr;
+    std::string targetstr;
+    if (!skip_prefix(line, pos, "arc(") || !get_prolog_field(line, pos, namestr)
+        || !get_prolog_field(line, pos, sourcestr)
+        || !get_prolog_field(line, pos, targetstr))
+    {
+        return false;
+    }
 
-    std::string symbol(symbolstr);
+    std::string symbol = line.substr(pos);
 
-    // strip the ending ")." from symbolstr
+    // strip the ending ")." from symbol
     if (!strip_ending_parenthesis_and_comma(symbol))
     {
         return false;
     }
 
-    if (n != 4)
+    if (namestr != graph.name)
     {
         return false;
     }
-    if (std::string(namestr) != graph.name)
+
+    unsigned int source = 0;
+    unsigned int target = 0;
+    if (!parse_state_number(sourcestr, source)
+        || !parse_state_number(targetstr, target))
     {
         return false;
     }
 
-    unsigned int source = atoi(sourcestr);
-    unsigned int target = atoi(targetstr);
-
     // handle the weight that might be included in symbol string
     float weight = 0;
     if (!extract_weight(symbol, weight))
@@ -1298,37 +1378,26 @@ HfstBasicTransducer::parse_prolog_final_line(const std::string &line,
                                              HfstBasicTransducer &graph)
 {
     // 'final(NAME, number).' or 'final(NAME, number, weight).'
-    char namestr[100];
-    char finalstr[100];
-    char weightstr[100];
-    float weight = 0;
-
-    unsigned int number_of_commas = 0;
-    size_t pos = line.find(',');
-    while (pos != std::string::npos)
+    size_t pos = 0;
+    std::string namestr;
+    if (!skip_prefix(line, pos, "final(")
+        || !get_prolog_field(line, pos, namestr))
     {
-        number_of_commas++;
-        pos = line.find(',', pos + 1);
+        return false;
     }
 
-    if (number_of_commas == 1)
+    float weight = 0;
+    std::string finalstr;
+    bool has_weight = get_prolog_field(line, pos, finalstr);
+    std::string laststr = line.substr(pos);
+
+    if (!strip_ending_parenthesis_and_comma(laststr))
     {
-        int n
-            = sscanf(line.c_str(), "final(%[^,], %[^)]).", namestr, finalstr);
-        if (n != 2)
-        {
-            return false;
-        }
+        return false;
     }
-    else if (number_of_commas == 2)
+    if (has_weight)
     {
-        int n = sscanf(line.c_str(), "final(%[^,], %[^,], %[^)]).", namestr,
-                       finalstr, weightstr);
-        if (n != 3)
-        {
-            return false;
-        }
-        std::istringstream buffer(weightstr);
+        std::istringstream buffer(laststr);
         buffer >> weight;
         if (buffer.fail()) // a float could not be read
         {
@@ -1337,13 +1406,17 @@ HfstBasicTransducer::parse_prolog_final_line(const std::string &line,
     }
     else
     {
-        return false;
+        finalstr = laststr;
     }
 
-    if (std::string(namestr) != graph.name)
+    if (namestr != graph.name)
         return false;
 
-    graph.set_final_weight(atoi(finalstr), weight);
+    unsigned int state = 0;
+    if (!parse_state_number(finalstr, state))
+        return false;
+
+    graph.set_final_weight(state, weight);
     return true;
 }
 
@@ -1352,15 +1425,13 @@ HfstBasicTransducer::parse_prolog_symbol_line(const std::string &line,
                                               HfstBasicTransducer &graph)
 {
     // 'symbol(NAME, "foo").'
-    char namearr[100];
-    char symbolarr[100];
-    int n = sscanf(line.c_str(), "symbol(%[^,], %s", namearr, symbolarr);
-
-    if (n != 2)
+    size_t pos = 0;
+    std::string namestr;
+    if (!skip_prefix(line, pos, "symbol(")
+        || !get_prolog_field(line, pos, namestr))
         return false;
 
-    std::string namestr(namearr);
-    std::string symbolstr(symbolarr);
+    std::string symbolstr = line.substr(pos);
 
     if (namestr != graph.name)
         return false;
@@ -1397,21 +1468,13 @@ std::string
 HfstBasicTransducer::get_stripped_line(std::istream &is, FILE *file,
                                        unsigned int &linecount)
 {
-    char line[255];
-
-    if (file == NULL)
-    { /* we use streams */
-        if (!is.getline(line, 255).eof())
-            HFST_THROW(EndOfStreamException);
-    }
-    else
-    { /* we use FILEs */
-        if (NULL == fgets(line, 255, file))
-            HFST_THROW(EndOfStreamException);
+    std::string linestr;
+    if (!get_next_line(is, file, linestr))
+    {
+        HFST_THROW(EndOfStreamException);
     }
     linecount++;
 
-    std::string linestr(line);
     return strip_newlines(linestr);
 }
 
@@ -1721,49 +1784,6 @@ HfstBasicTransducer::write_in_att_format_number(FILE *file,
     }
 }
 
-// If \a str is a state number, store it to \a state and return true.
-// Else, return false.
-static bool
-parse_state_number(const std::string &str, unsigned int &state)
-{
-    if (str.empty() || str.size() > 10
-        || str.find_first_not_of("0123456789") != std::string::npos)
-    {
-        return false;
-    }
-    unsigned long number = strtoul(str.c_str(), NULL, 10);
-    if (number >= UINT_MAX)
-    {
-        return false;
-    }
-    state = (unsigned int)number;
-    return true;
-}
-
-// Get the next line, of any length and without its newline, from \a is
-// (if \a file == NULL) or from \a file. Return false at the end of input.
-static bool
-get_next_line(std::istream &is, FILE *file, std::string &line)
-{
-    line.clear();
-    if (file == NULL)
-    { /* we use streams */
-        return !std::getline(is, line).fail();
-    }
-    /* we use FILEs */
-    int c = getc(file);
-    if (c == EOF)
-    {
-        return false;
-    }
-    while (c != EOF && c != '\n')
-    {
-        line.push_back((char)c);
-        c = getc(file);
-    }
-    return true;
-}
-
 bool
 HfstBasicTransducer::add_att_line(char *line,
                                   const std::string &epsilon_symbol,
-- 
2.43.0


From 9d5ac84f899528ab1cb3359172d5ef8da2fdc01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:45 +0000
Subject: [PATCH 10/97] fix: extracting paths from log and optimized-lookup
 transducers includes the empty path

---
 libhfst/src/implementations/HfstOlTransducer.cc    | 12 ++++++++++++
 libhfst/src/implementations/LogWeightTransducer.cc |  9 +++++++++
 2 files changed, 21 insertions(+)

diff --git a/libhfst/src/implementations/HfstOlTransducer.cc b/libhfst/src/implementations/HfstOlTransducer.cc
index c87475f..e2e57ea 100644
--- a/libhfst/src/implementations/HfstOlTransducer.cc
+++ b/libhfst/src/implementations/HfstOlTransducer.cc
@@ -434,6 +434,18 @@ void HfstOlInputStream::ignore(unsigned int n)
     hfst::implementations::extract_paths
       (t,0,all_visitations,path_visitations,/*lbuffer,0,ubuffer,0,*/0.0f,
        callback,cycles,fd_state_stack,filter_fd, spv);
+
+    // add epsilon path, if needed
+    if (t->get_index(0).final())
+      {
+        StringPairVector empty_spv;
+        float final_weight = t->get_header().probe_flag(hfst_ol::Weighted) ?
+          dynamic_cast<const hfst_ol::TransitionWIndex&>
+          (t->get_index(0)).final_weight() : 0.0f;
+        hfst::HfstTwoLevelPath epsilon_path(final_weight, empty_spv);
+        callback(epsilon_path, true /* final */);
+      }
+    delete fd_state_stack;
   }
   
   const FdTable<hfst_ol::SymbolNumber>* HfstOlTransducer::
diff --git a/libhfst/src/implementations/LogWeightTransducer.cc b/libhfst/src/implementations/LogWeightTransducer.cc
index d2ec0fd..c76b890 100644
--- a/libhfst/src/implementations/LogWeightTransducer.cc
+++ b/libhfst/src/implementations/LogWeightTransducer.cc
@@ -2302,6 +2302,15 @@ LogWeightTransducer::extract_paths(LogFst *t, hfst::ExtractStringsCb &callback,
         /*lbuffer,0,ubuffer,0,*/ 0.0f, callback, cycles, fd_state_stack,
         filter_fd,
         /*include_spv,*/ spv);
+
+    // add epsilon path, if needed
+    if (t->Final(t->Start()) != LogWeight::Zero())
+    {
+        StringPairVector empty_spv;
+        HfstTwoLevelPath epsilon_path(t->Final(t->Start()).Value(), empty_spv);
+        callback(epsilon_path, true /* final*/);
+    }
+    delete fd_state_stack;
 }
 
 void
-- 
2.43.0


From d26464a19138bddbe0a83eef4bfb326edbdcd394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:45 +0000
Subject: [PATCH 11/97] fix: is_cyclic finds the cycles of optimized-lookup
 transducers

---
 .../src/implementations/HfstOlTransducer.cc   | 45 ++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/implementations/HfstOlTransducer.cc b/libhfst/src/implementations/HfstOlTransducer.cc
index e2e57ea..f85fca4 100644
--- a/libhfst/src/implementations/HfstOlTransducer.cc
+++ b/libhfst/src/implementations/HfstOlTransducer.cc
@@ -212,7 +212,50 @@ void HfstOlInputStream::ignore(unsigned int n)
   { return new hfst_ol::Transducer(weighted); }
   
   bool HfstOlTransducer::is_cyclic(hfst_ol::Transducer* t)
-  { return t->get_header().probe_flag(hfst_ol::Cyclic); }
+  {
+    // The header flag cannot be relied on: conversion to optimized-lookup
+    // format does not set it. Look for a transition leading back to a state
+    // that is being traversed.
+    typedef hfst_ol::TransitionTableIndex Index;
+    typedef std::pair<std::vector<Index>, size_t> TargetsAndPosition;
+    std::map<Index, bool> being_traversed;
+    std::vector<std::pair<Index, TargetsAndPosition> > stack;
+    Index s = 0;
+    while (true)
+      {
+        // enter state s
+        being_traversed[s] = true;
+        hfst_ol::TransitionTableIndexSet transitions
+          = t->get_transitions_from_state(s);
+        std::vector<Index> targets;
+        for (hfst_ol::TransitionTableIndexSet::const_iterator it
+               = transitions.begin(); it != transitions.end(); it++)
+          targets.push_back(t->get_transition(*it).get_target());
+        stack.push_back(std::make_pair(s, TargetsAndPosition(targets, 0)));
+
+        // find the next state to enter
+        bool found = false;
+        while (!found && !stack.empty())
+          {
+            TargetsAndPosition & top = stack.back().second;
+            if (top.second == top.first.size())
+              {
+                being_traversed[stack.back().first] = false;
+                stack.pop_back();
+                continue;
+              }
+            s = top.first[top.second++];
+            std::map<Index, bool>::const_iterator visited
+              = being_traversed.find(s);
+            if (visited == being_traversed.end())
+              found = true;
+            else if (visited->second)
+              return true;
+          }
+        if (!found)
+          return false;
+      }
+  }
   
   static bool extract_paths
   (hfst_ol::Transducer* t, hfst_ol::TransitionTableIndex s,
-- 
2.43.0


From 3762e257c7382bd05c4d0d84a649d66422d15021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:45 +0000
Subject: [PATCH 12/97] fix: extract_paths never gives more than the requested
 number of paths

---
 libhfst/src/HfstTransducer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index d38e5ae..3684edc 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -2707,7 +2707,7 @@ class ExtractStringsCb_ : public ExtractStringsCb
     RetVal
     operator()(HfstTwoLevelPath &path, bool final)
     {
-        if (final)
+        if (final && (max_num < 1 || (int)paths.size() < max_num))
             paths.insert(path);
 
         return RetVal((max_num < 1) || (int)paths.size() < max_num, true);
-- 
2.43.0


From afc29c51413c504df99122e748095d328f3e5eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:45 +0000
Subject: [PATCH 13/97] fix: weights of random paths are those of the paths

---
 libhfst/src/implementations/TropicalWeightTransducer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libhfst/src/implementations/TropicalWeightTransducer.cc b/libhfst/src/implementations/TropicalWeightTransducer.cc
index 00f067f..648f306 100644
--- a/libhfst/src/implementations/TropicalWeightTransducer.cc
+++ b/libhfst/src/implementations/TropicalWeightTransducer.cc
@@ -3001,6 +3001,9 @@ random_path_(StdVectorFst *t)
        that \a last_index constitute the longest path that is recognized by
        transducer \a t so far. */
     int last_index = 0;
+    /* The weight of that path, including the final weight. */
+    float last_weight
+        = is_epsilon_path_accepted ? t->Final(t->Start()).Value() : 0;
 
     unsigned int num_states = t->NumStates();
 
@@ -3040,6 +3043,7 @@ random_path_(StdVectorFst *t)
             {
                 path.second.pop_back();
             }
+            path.first = last_weight;
             if (!is_epsilon_path_accepted && path.second.size() == 0)
                 throw "cannot extract random path";
             return path;
@@ -3071,6 +3075,7 @@ random_path_(StdVectorFst *t)
                     return path;
                 } // or continue.
                 last_index = (int)path.second.size();
+                last_weight = path.first + t->Final(t_target).Value();
             }
 
             /* Give more probability for shorter paths. */
-- 
2.43.0


From fc6c0f142121cd1acb57fee570daae0a59b306ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:45 +0000
Subject: [PATCH 14/97] fix: converting an SFST transducer does not lose states
 that carry a stale visit mark

---
 .../implementations/ConvertSfstTransducer.cc   | 18 +++++++++---------
 .../implementations/ConvertTransducerFormat.h  |  4 +++-
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/libhfst/src/implementations/ConvertSfstTransducer.cc b/libhfst/src/implementations/ConvertSfstTransducer.cc
index bfe4b58..bb836ca 100644
--- a/libhfst/src/implementations/ConvertSfstTransducer.cc
+++ b/libhfst/src/implementations/ConvertSfstTransducer.cc
@@ -35,23 +35,25 @@ namespace hfst { namespace implementations
 
      ----------------------------------------------------------- */
 
-  SFST::VType VMARK = 10000;
-
   /* Recursively copy all transitions of \a node to \a net.
      Used by function sfst_to_hfst_basic_transducer(SFST::Transducer * t).
 
      @param node  The current node in the SFST transducer
      @param net   The HfstBasicTransducer that is being created
      @harmonization_vector A vector that defines how symbol numbers are recoded
+     @visited_nodes  The nodes whose transitions have been copied. (The visit
+                     marks of the nodes themselves cannot be used, as they are
+                     also changed by member functions of SFST::Transducer.)
   */
 
   void ConversionFunctions::sfst_to_hfst_basic_transducer
   ( SFST::Node *node,
     HfstBasicTransducer *net,
-    std::vector<unsigned int> &harmonization_vector) {
+    std::vector<unsigned int> &harmonization_vector,
+    std::set<SFST::Node*> &visited_nodes) {
     
     // If node has not been visited before
-    if (not node->was_visited(VMARK)) {
+    if (visited_nodes.insert(node).second) {
       SFST::Arcs *arcs=node->arcs();
       
       // Count the number of transitions in the current state
@@ -84,7 +86,7 @@ namespace hfst { namespace implementations
       for( SFST::ArcsIter p(arcs); p; p++ ) {
         SFST::Arc *arc=p;
         sfst_to_hfst_basic_transducer
-          (arc->target_node(), net, harmonization_vector);
+          (arc->target_node(), net, harmonization_vector, visited_nodes);
       }
     }
   }
@@ -126,12 +128,10 @@ namespace hfst { namespace implementations
     unsigned int number_of_nodes = (unsigned int)indexing.size();
     net->initialize_state_vector(number_of_nodes);
     
-    if (t->root_node()->check_visited(VMARK))
-      VMARK++;
-    
     // Recursively copy the transitions in each node to the basic transducer
+    std::set<SFST::Node*> visited_nodes;
     sfst_to_hfst_basic_transducer
-      (t->root_node(), net, harmonization_vector);
+      (t->root_node(), net, harmonization_vector, visited_nodes);
     
     // Copy the alphabet
     SFST::Alphabet::CharMap cm = t->alphabet.get_char_map();
diff --git a/libhfst/src/implementations/ConvertTransducerFormat.h b/libhfst/src/implementations/ConvertTransducerFormat.h
index 653a1e5..d2a7700 100644
--- a/libhfst/src/implementations/ConvertTransducerFormat.h
+++ b/libhfst/src/implementations/ConvertTransducerFormat.h
@@ -14,6 +14,7 @@
 #  include <config.h>
 #endif // HAVE_CONFIG_H
 
+#include <set>
 #include <map>
 #include <iosfwd>
 #include <vector>
@@ -91,7 +92,8 @@ namespace implementations {
   static void sfst_to_hfst_basic_transducer
     ( SFST::Node *node,
       HfstBasicTransducer *net,
-      std::vector<unsigned int> &harmonization_vector);
+      std::vector<unsigned int> &harmonization_vector,
+      std::set<SFST::Node*> &visited_nodes);
 
   static HfstBasicTransducer * sfst_to_hfst_basic_transducer
     (SFST::Transducer * t);
-- 
2.43.0


From 9c07fc838dff5e5a9477c8bda42dda483becee41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:21 +0000
Subject: [PATCH 15/97] fix: optimized lookup does not index the table with
 symbols that are not input symbols

---
 .../implementations/optimized-lookup/find_epsilon_loops.cc    | 4 +++-
 libhfst/src/implementations/optimized-lookup/transducer.cc    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc b/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc
index e759db9..06014dc 100644
--- a/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc
+++ b/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc
@@ -123,7 +123,9 @@ void Transducer::find_loop_index(SymbolNumber input,
                                       unsigned int input_pos,
                                       TransitionTableIndex i)
 {
-    if (tables->get_index_input(i+input) == input)
+    // symbols that are not input symbols have no index
+    if (input < header->input_symbol_count() &&
+        tables->get_index_input(i+input) == input)
     {
         find_loop_transitions(input,
                               input_pos,
diff --git a/libhfst/src/implementations/optimized-lookup/transducer.cc b/libhfst/src/implementations/optimized-lookup/transducer.cc
index c08bbb1..1e91d64 100644
--- a/libhfst/src/implementations/optimized-lookup/transducer.cc
+++ b/libhfst/src/implementations/optimized-lookup/transducer.cc
@@ -563,7 +563,9 @@ void Transducer::find_index(SymbolNumber input,
                             unsigned int output_pos,
                             TransitionTableIndex i)
 {
-    if (tables->get_index_input(i+input) == input)
+    // symbols that are not input symbols have no index
+    if (input < header->input_symbol_count() &&
+        tables->get_index_input(i+input) == input)
     {
         find_transitions(input,
                          input_pos,
-- 
2.43.0


From bde4e0bf7e3553a1a817df85319fb08c0fe33475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:21 +0000
Subject: [PATCH 16/97] fix: the lookup ambiguity test of optimized-lookup
 transducers follows identity and unknown transitions

---
 .../optimized-lookup/find_epsilon_loops.cc    | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc b/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc
index 06014dc..ae08da1 100644
--- a/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc
+++ b/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc
@@ -157,7 +157,19 @@ void Transducer::find_loop(unsigned int input_pos,
         SymbolNumber input = input_tape[input_pos];
         ++input_pos;
 
-        find_loop_transitions(input, input_pos, i+1);
+        if (input < alphabet->get_orig_symbol_count()) {
+            // Input is in the alphabet
+            find_loop_transitions(input, input_pos, i+1);
+        } else {
+            if (alphabet->get_identity_symbol() != NO_SYMBOL_NUMBER) {
+                find_loop_transitions(alphabet->get_identity_symbol(),
+                                      input_pos, i+1);
+            }
+            if (alphabet->get_unknown_symbol() != NO_SYMBOL_NUMBER) {
+                find_loop_transitions(alphabet->get_unknown_symbol(),
+                                      input_pos, i+1);
+            }
+        }
         if (alphabet->get_default_symbol() != NO_SYMBOL_NUMBER &&
             !found_transition) {
             find_loop_transitions(alphabet->get_default_symbol(),
@@ -176,7 +188,19 @@ void Transducer::find_loop(unsigned int input_pos,
         SymbolNumber input = input_tape[input_pos];
         ++input_pos;
 
-        find_loop_index(input, input_pos, i+1);
+        if (input < alphabet->get_orig_symbol_count()) {
+            // Input is in the alphabet
+            find_loop_index(input, input_pos, i+1);
+        } else {
+            if (alphabet->get_identity_symbol() != NO_SYMBOL_NUMBER) {
+                find_loop_index(alphabet->get_identity_symbol(),
+                                input_pos, i+1);
+            }
+            if (alphabet->get_unknown_symbol() != NO_SYMBOL_NUMBER) {
+                find_loop_index(alphabet->get_unknown_symbol(),
+                                input_pos, i+1);
+            }
+        }
         // If we have a default symbol defined and we didn't find an index,
         // check for that
         if (alphabet->get_default_symbol() != NO_SYMBOL_NUMBER && !found_transition) {
-- 
2.43.0


From 4657a3fab17a519af722e142a581bcf97ce07aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:21 +0000
Subject: [PATCH 17/97] fix: flag loops of optimized-lookup transducers are
 recognized by the flag values after the transition

---
 .../optimized-lookup/find_epsilon_loops.cc                | 8 +++++---
 .../src/implementations/optimized-lookup/transducer.cc    | 3 ++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc b/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc
index ae08da1..5e65910 100644
--- a/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc
+++ b/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc
@@ -73,13 +73,15 @@ void Transducer::find_loop_epsilon_transitions(
                     *(alphabet->get_operation(
                           tables->get_transition_input(i))))) {
                 // flag diacritic allowed
-                if (traversal_states.count(epsilon_reachable) == 1) {
+                TraversalState flag_reachable(target,
+                                              flag_state.get_values());
+                if (traversal_states.count(flag_reachable) == 1) {
                     // We've been here before
                     throw true;
                 }
-                traversal_states.insert(epsilon_reachable);
+                traversal_states.insert(flag_reachable);
                 find_loop(input_pos, target);
-                traversal_states.erase(epsilon_reachable);
+                traversal_states.erase(flag_reachable);
             }
             flag_state.assign_values(flags);
             ++i;
diff --git a/libhfst/src/implementations/optimized-lookup/transducer.cc b/libhfst/src/implementations/optimized-lookup/transducer.cc
index 1e91d64..b49a4b2 100644
--- a/libhfst/src/implementations/optimized-lookup/transducer.cc
+++ b/libhfst/src/implementations/optimized-lookup/transducer.cc
@@ -485,7 +485,8 @@ void Transducer::try_epsilon_transitions(unsigned int input_pos,
             if (flag_state.apply_operation(
                     *(alphabet->get_operation(input)))) {
                 // flag diacritic allowed
-                TraversalState flag_reachable(target, flags);
+                TraversalState flag_reachable(target,
+                                              flag_state.get_values());
                 if (traversal_states.count(flag_reachable) == 1) {
                     // We've been here before at this input, back out
                     flag_state.assign_values(flags);
-- 
2.43.0


From 8773257bd980dd4ca63e4b89c3fd637f63f4e6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:21 +0000
Subject: [PATCH 18/97] fix: loop detection of optimized lookup is not lost
 when a symbol is consumed in between

---
 .../implementations/optimized-lookup/find_epsilon_loops.cc | 7 +++++--
 libhfst/src/implementations/optimized-lookup/transducer.cc | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc b/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc
index 5e65910..61e83df 100644
--- a/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc
+++ b/libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc
@@ -110,9 +110,12 @@ void Transducer::find_loop_transitions(SymbolNumber input,
 
     while (tables->get_transition_input(i) != NO_SYMBOL_NUMBER) {
         if (tables->get_transition_input(i) == input) {
-            // We're not going to find an epsilon / flag loop
-            traversal_states.clear();
+            // We're not going to find an epsilon / flag loop at the next
+            // input position that contains the states traversed so far
+            TraversalStates states_at_this_input;
+            states_at_this_input.swap(traversal_states);
             find_loop(input_pos, tables->get_transition_target(i));
+            traversal_states.swap(states_at_this_input);
             found_transition = true;
         } else {
             return;
diff --git a/libhfst/src/implementations/optimized-lookup/transducer.cc b/libhfst/src/implementations/optimized-lookup/transducer.cc
index b49a4b2..8dc7aea 100644
--- a/libhfst/src/implementations/optimized-lookup/transducer.cc
+++ b/libhfst/src/implementations/optimized-lookup/transducer.cc
@@ -535,8 +535,10 @@ void Transducer::find_transitions(SymbolNumber input,
         if (tables->get_transition_input(i) == input)
         {
             Weight old_weight = current_weight;
-            // We're not going to find an epsilon / flag loop
-            traversal_states.clear();
+            // We're not going to find an epsilon / flag loop at the next
+            // input position that contains the states traversed so far
+            TraversalStates states_at_this_input;
+            states_at_this_input.swap(traversal_states);
             SymbolNumber output = tables->get_transition_output(i);
             if (alphabet->is_meta_arc(output)) {
                 // we got here via default, identity or unknown, so look
@@ -548,6 +550,7 @@ void Transducer::find_transitions(SymbolNumber input,
             get_analyses(input_pos,
                          output_pos + 1,
                          tables->get_transition_target(i));
+            traversal_states.swap(states_at_this_input);
             current_weight = old_weight;
             found_transition = true;
         }
-- 
2.43.0


From 7419e34ec6be39d29d2e2a1728509f9226844e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:21 +0000
Subject: [PATCH 19/97] fix: lookup of truncated UTF-8 stays within the string
 and output symbols are not taken for unknown ones

---
 .../implementations/optimized-lookup/transducer.cc   | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libhfst/src/implementations/optimized-lookup/transducer.cc b/libhfst/src/implementations/optimized-lookup/transducer.cc
index 8dc7aea..a47ccf9 100644
--- a/libhfst/src/implementations/optimized-lookup/transducer.cc
+++ b/libhfst/src/implementations/optimized-lookup/transducer.cc
@@ -323,15 +323,21 @@ bool Transducer::initialize_input(const char * input)
             // Add what we assume to be an unknown utf-8 symbol to the alphabet
             *input_str_ptr = original_input_loc;
             int bytes_to_tokenize = nByte_utf8(**input_str_ptr);
-            if (bytes_to_tokenize == 0) {
+            if (bytes_to_tokenize == 0 ||
+                strnlen(*input_str_ptr, bytes_to_tokenize) <
+                (size_t) bytes_to_tokenize) {
                 return false; // tokenization failed
             }
             char * new_symbol = new char[bytes_to_tokenize + 1];
             memcpy(new_symbol, *input_str_ptr, bytes_to_tokenize);
             new_symbol[bytes_to_tokenize] = '\0';
             (*input_str_ptr) += bytes_to_tokenize;
-            alphabet->add_symbol(new_symbol);
-            k = hfst::size_t_to_uint(alphabet->get_symbol_table().size() - 1);
+            k = alphabet->symbol_from_string(new_symbol);
+            if (k == NO_SYMBOL_NUMBER) {
+                alphabet->add_symbol(new_symbol);
+                k = hfst::size_t_to_uint
+                    (alphabet->get_symbol_table().size() - 1);
+            } // else it is in the alphabet but only used as an output symbol
             encoder->read_input_symbol(new_symbol, k);
             delete [] new_symbol;
         }
-- 
2.43.0


From fb2cc5f78f2cf0b891c9765b0ddf5d32c7d9c011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:46 +0000
Subject: [PATCH 20/97] fix: flag elimination keeps the paths that use flags
 the filter does not mention

---
 libhfst/src/HfstTransducer.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 3684edc..27006f5 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -2030,6 +2030,19 @@ get_flag_filter(const HfstTransducer *transducer, const StringSet &flags,
 
     if (filter != NULL)
     {
+        // make the filter accept also the flags that it does not mention,
+        // as they will not match unknowns or identities once unescaped
+        HfstBasicTransducer any;
+        any.set_final_weight(0, 0);
+        any.add_transition(
+            0, HfstBasicTransition(0, internal_identity, internal_identity, 0));
+        for (const auto &f : flags)
+        {
+            any.add_transition(
+                0, HfstBasicTransition(0, "_" + f, "_" + f, 0));
+        }
+        filter->intersect(HfstTransducer(any, type));
+
         substitute_escaped_flags(filter); // unescape the flags
         filter->optimize();
     }
-- 
2.43.0


From 33d25fda17527dc3fa5c6947682d4dac8162e450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:46 +0000
Subject: [PATCH 21/97] fix: flag elimination obeys unsatisfiable requirements
 and negatively set features

---
 libhfst/src/HfstTransducer.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 27006f5..73b645a 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -1858,6 +1858,8 @@ flag_build(int ftype, char *fname, char *fvalue, int fftype, char *ffname,
         return FLAG_SUCCEED;
     if ((ftype == FLAG_UNIFY) && (fftype == FLAG_CLEAR))
         return FLAG_SUCCEED;
+    if ((ftype == FLAG_UNIFY) && (fftype == FLAG_NEGATIVE) && (eq != 0))
+        return FLAG_SUCCEED;
     if ((ftype == FLAG_UNIFY) && (fftype == FLAG_UNIFY) && (eq != 0))
         return FLAG_FAIL;
     if ((ftype == FLAG_UNIFY) && (fftype == FLAG_POSITIVE) && (eq != 0))
@@ -1909,8 +1911,7 @@ flag_build(int ftype, char *fname, char *fvalue, int fftype, char *ffname,
         return FLAG_SUCCEED;
     if ((ftype == FLAG_DISALLOW) && (fftype == FLAG_CLEAR) && !selfnull)
         return FLAG_SUCCEED;
-    if ((ftype == FLAG_DISALLOW) && (fftype == FLAG_NEGATIVE) && (eq == 0)
-        && !selfnull)
+    if ((ftype == FLAG_DISALLOW) && (fftype == FLAG_NEGATIVE) && !selfnull)
         return FLAG_SUCCEED;
     if ((ftype == FLAG_DISALLOW) && (fftype == FLAG_POSITIVE) && (eq == 0)
         && !selfnull)
@@ -1918,9 +1919,6 @@ flag_build(int ftype, char *fname, char *fvalue, int fftype, char *ffname,
     if ((ftype == FLAG_DISALLOW) && (fftype == FLAG_UNIFY) && (eq == 0)
         && !selfnull)
         return FLAG_FAIL;
-    if ((ftype == FLAG_DISALLOW) && (fftype == FLAG_NEGATIVE) && (eq != 0)
-        && !selfnull)
-        return FLAG_FAIL;
 
     return FLAG_NONE;
 }
@@ -1989,6 +1987,8 @@ get_flag_filter(const HfstTransducer *transducer, const StringSet &flags,
         if ((flag.empty() || FdOperation::get_feature(f) == flag)
             && (op == 'U' || op == 'R' || op == 'D')) // Equal flag?
         {
+            // a required flag fails if nothing sets the feature
+            flag_found = (op == 'R');
             for (const auto &flag : flags)
             {
                 int fstatus = is_valid_flag_combination(f, flag);
-- 
2.43.0


From 1c1fbe10b73656e9b40f02825075f084a68a93da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:23 +0000
Subject: [PATCH 22/97] fix: comparison of weighted transducers does not depend
 on whether their initial states have incoming transitions

---
 .../TropicalWeightTransducer.cc               | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/libhfst/src/implementations/TropicalWeightTransducer.cc b/libhfst/src/implementations/TropicalWeightTransducer.cc
index 648f306..133223f 100644
--- a/libhfst/src/implementations/TropicalWeightTransducer.cc
+++ b/libhfst/src/implementations/TropicalWeightTransducer.cc
@@ -1648,6 +1648,26 @@ TropicalWeightTransducer::define_transducer(const std::string &isymbol,
     return t;
 }
 
+// Make the initial state of \a t have no incoming transitions. Otherwise
+// fst::Equivalent, which pushes weights to the initial state, would add an
+// extra transition for the weight of \a t.
+static void
+unroll_initial_state(StdVectorFst *t)
+{
+    if (t->Start() == fst::kNoStateId
+        || (t->Properties(fst::kInitialAcyclic, true) & fst::kInitialAcyclic))
+        return;
+    StateId start = t->AddState();
+    for (fst::ArcIterator<StdVectorFst> aiter(*t, t->Start()); !aiter.Done();
+         aiter.Next())
+    {
+        StdArc arc = aiter.Value();
+        t->AddArc(start, arc);
+    }
+    t->SetFinal(start, t->Final(t->Start()));
+    t->SetStart(start);
+}
+
 bool
 TropicalWeightTransducer::are_equivalent(StdVectorFst *a_, StdVectorFst *b_)
 {
@@ -1677,6 +1697,9 @@ TropicalWeightTransducer::are_equivalent(StdVectorFst *a_, StdVectorFst *b_)
     delete a;
     delete b;
 
+    unroll_initial_state(deta);
+    unroll_initial_state(detb);
+
     bool retval = Equivalent(*deta, *detb);
 
     delete deta;
-- 
2.43.0


From 92650a3f7d7e7ff781d2076aff52ca4d6b84f2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:43 +0000
Subject: [PATCH 23/97] fix: log transducers share symbol numbers, so that
 binary operations match the right symbols

---
 .../ConvertLogWeightTransducer.cc             | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/libhfst/src/implementations/ConvertLogWeightTransducer.cc b/libhfst/src/implementations/ConvertLogWeightTransducer.cc
index e45cd77..2cacc9f 100644
--- a/libhfst/src/implementations/ConvertLogWeightTransducer.cc
+++ b/libhfst/src/implementations/ConvertLogWeightTransducer.cc
@@ -249,6 +249,14 @@ ConversionFunctions::hfst_basic_transducer_to_log_ofst(
     st.AddSymbol(internal_unknown, 1);
     st.AddSymbol(internal_identity, 2);
 
+    // Copy the alphabet, with the numbers that all transducers share
+    for (HfstBasicTransducer::HfstAlphabet::const_iterator it
+         = net->alphabet.begin();
+         it != net->alphabet.end(); it++)
+    {
+        st.AddSymbol(*it, net->get_symbol_number(*it));
+    }
+
     // Go through all states
     unsigned int source_state = 0;
     for (HfstBasicTransducer::const_iterator it = net->begin();
@@ -261,8 +269,8 @@ ConversionFunctions::hfst_basic_transducer_to_log_ofst(
             // Copy the transition
             t->AddArc(
                 hfst_state_to_state_id(source_state, state_map, t),
-                fst::LogArc(st.AddSymbol(tr_it->get_input_symbol()),
-                            st.AddSymbol(tr_it->get_output_symbol()),
+                fst::LogArc(tr_it->get_input_number(),
+                            tr_it->get_output_number(),
                             tr_it->get_weight(),
                             hfst_state_to_state_id(tr_it->get_target_state(),
                                                    state_map, t)));
@@ -279,14 +287,6 @@ ConversionFunctions::hfst_basic_transducer_to_log_ofst(
                     it->second);
     }
 
-    // Add also symbols that do not occur in transitions
-    for (HfstBasicTransducer::HfstAlphabet::const_iterator it
-         = net->alphabet.begin();
-         it != net->alphabet.end(); it++)
-    {
-        st.AddSymbol(*it);
-    }
-
     t->SetInputSymbols(&st);
     return t;
 }
-- 
2.43.0


From f32977c74e5e5ceab3dc1a275be482c869c5d0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:43 +0000
Subject: [PATCH 24/97] fix: set_final_weights can increment the final weights
 of log transducers

---
 libhfst/src/HfstTransducer.cc                      | 2 +-
 libhfst/src/implementations/LogWeightTransducer.cc | 5 +++--
 libhfst/src/implementations/LogWeightTransducer.h  | 3 ++-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 73b645a..ab4c068 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -3998,7 +3998,7 @@ HfstTransducer::set_final_weights(float weight, bool increment)
     if (this->type == LOG_OPENFST_TYPE)
     {
         implementation.log_ofst = this->log_ofst_interface.set_final_weights(
-            this->implementation.log_ofst, weight);
+            this->implementation.log_ofst, weight, increment);
         return *this;
     }
 #endif
diff --git a/libhfst/src/implementations/LogWeightTransducer.cc b/libhfst/src/implementations/LogWeightTransducer.cc
index c76b890..67b0868 100644
--- a/libhfst/src/implementations/LogWeightTransducer.cc
+++ b/libhfst/src/implementations/LogWeightTransducer.cc
@@ -363,13 +363,14 @@ LogWeightTransducer::recode_symbol_numbers(LogFst *t, NumberNumberMap &km)
 }
 
 LogFst *
-LogWeightTransducer::set_final_weights(LogFst *t, float weight)
+LogWeightTransducer::set_final_weights(LogFst *t, float weight,
+                                       bool increment)
 {
     for (fst::StateIterator<LogFst> siter(*t); !siter.Done(); siter.Next())
     {
         StateId s = siter.Value();
         if (t->Final(s) != LogWeight::Zero())
-            t->SetFinal(s, weight);
+            t->SetFinal(s, increment ? weight + t->Final(s).Value() : weight);
     }
     return t;
 }
diff --git a/libhfst/src/implementations/LogWeightTransducer.h b/libhfst/src/implementations/LogWeightTransducer.h
index 9602a49..3119938 100644
--- a/libhfst/src/implementations/LogWeightTransducer.h
+++ b/libhfst/src/implementations/LogWeightTransducer.h
@@ -162,7 +162,8 @@ namespace implementations
       static LogFst * subtract(LogFst * t1,
                             LogFst * t2);
       static LogFst * set_weight(LogFst * t,float f);
-      static LogFst * set_final_weights(LogFst * t, float weight);
+      static LogFst * set_final_weights(LogFst * t, float weight,
+                                        bool increment=false);
       static LogFst * transform_weights(LogFst * t,float (*func)(float f));
       static LogFst * push_labels(LogFst * t, bool to_initial_state);
       static LogFst * push_weights(LogFst * t, bool to_initial_state);
-- 
2.43.0


From 6aca95bfce10e965bf4bb4d12f985f573b79acab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:43 +0000
Subject: [PATCH 25/97] fix: remove_transitions does not skip the transition
 after a removed one

---
 libhfst/src/implementations/HfstBasicTransducer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 3e9f07a..7576029 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -2149,6 +2149,7 @@ HfstBasicTransducer::remove_transitions(const HfstSymbolPair &sp)
             if (in_tr == in_match && out_tr == out_match)
             {
                 it.erase(it.begin() + i);
+                i--; // the next transition is now at this position
             }
             else
             {
-- 
2.43.0


From 7cb5f52ab010890f316092edbbc2d8acd2619989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:43 +0000
Subject: [PATCH 26/97] fix: substituting a pair with a graph removes the right
 transitions

---
 libhfst/src/implementations/HfstBasicTransducer.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 7576029..7cde506 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -2615,10 +2615,12 @@ HfstBasicTransducer::substitute(const HfstSymbolPair &sp,
         }
         // (all transitions in a state gone through)
 
-        // Remove the substituted transitions
-        for (auto &old_transition : old_transitions)
+        // Remove the substituted transitions, starting from the last one
+        // as erasing invalidates the iterators after it
+        for (auto old_it = old_transitions.rbegin();
+             old_it != old_transitions.rend(); old_it++)
         {
-            it.erase(old_transition);
+            it.erase(*old_it);
         }
 
         source_state++;
-- 
2.43.0


From ee0a34a5f29585440fa588b70a3c30c7d2e3b4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:31 +0000
Subject: [PATCH 27/97] fix: ?:0 and 0:? in regular expressions do not accept
 the empty string

---
 libhfst/src/parsers/xre_utils.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/libhfst/src/parsers/xre_utils.cc b/libhfst/src/parsers/xre_utils.cc
index aafc469..60f12ab 100644
--- a/libhfst/src/parsers/xre_utils.cc
+++ b/libhfst/src/parsers/xre_utils.cc
@@ -936,16 +936,25 @@ xfst_label_to_transducer(const char *input, const char *output)
     {
         retval = new HfstTransducer(hfst::internal_unknown, output,
                                     hfst::xre::format);
-        HfstTransducer output_tr(output, output, hfst::xre::format);
-        retval->disjunct(output_tr)
-            .minimize(); // it should be safe to minimize
+        // '?' stands for 'output' itself, too, but never for epsilon
+        if (strcmp(output, hfst::internal_epsilon.c_str()) != 0)
+        {
+            HfstTransducer output_tr(output, output, hfst::xre::format);
+            retval->disjunct(output_tr)
+                .minimize(); // it should be safe to minimize
+        }
     }
     else if (output_is_unknown)
     {
         retval = new HfstTransducer(input, hfst::internal_unknown,
                                     hfst::xre::format);
-        HfstTransducer input_tr(input, input, hfst::xre::format);
-        retval->disjunct(input_tr).minimize(); // it should be safe to minimize
+        // '?' stands for 'input' itself, too, but never for epsilon
+        if (strcmp(input, hfst::internal_epsilon.c_str()) != 0)
+        {
+            HfstTransducer input_tr(input, input, hfst::xre::format);
+            retval->disjunct(input_tr)
+                .minimize(); // it should be safe to minimize
+        }
     }
     else
     {
-- 
2.43.0


From d5e2908a018fef2e3bab87a4b0f63ba952a80c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:31 +0000
Subject: [PATCH 28/97] fix: free() the name of an invalid function call in a
 regular expression

---
 libhfst/src/parsers/xre_parse.yy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhfst/src/parsers/xre_parse.yy b/libhfst/src/parsers/xre_parse.yy
index 6a5d1c3..b949b92 100644
--- a/libhfst/src/parsers/xre_parse.yy
+++ b/libhfst/src/parsers/xre_parse.yy
@@ -1250,7 +1250,7 @@ LABEL: HALFARC {
      | FUNCTION REGEXP_LIST RIGHT_PARENTHESIS {
         if (! hfst::xre::is_valid_function_call($1, $2))
         {
-            delete $1;
+            free($1);
             delete $2;
             return EXIT_FAILURE;
         }
-- 
2.43.0


From b869b038274859616fd10addc2c119396d538283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:31 +0000
Subject: [PATCH 29/97] fix: reserve the identity symbol before projecting a
 foma transducer

---
 libhfst/src/implementations/FomaTransducer.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/implementations/FomaTransducer.cc b/libhfst/src/implementations/FomaTransducer.cc
index 07825ae..903750a 100644
--- a/libhfst/src/implementations/FomaTransducer.cc
+++ b/libhfst/src/implementations/FomaTransducer.cc
@@ -416,16 +416,30 @@ namespace hfst { namespace implementations {
     return fsm_reverse(fsm_copy(t));
   }
 
+  // Projection turns unknowns into identities, but foma reserves room only for
+  // the symbols that are already in sigma.
+  static fsm * copy_with_identity_in_sigma(fsm * t)
+  {
+    fsm * net = fsm_copy(t);
+    for (struct sigma * p = net->sigma; p != NULL; p = p->next)
+      {
+        if (p->number == 2)
+          return net;
+      }
+    sigma_add_special(2, net->sigma);
+    return net;
+  }
+
   fsm * FomaTransducer::extract_input_language(fsm * t)
   {
     // foma does not handle epsilon transducer properly..
-    return fsm_upper(fsm_copy(t));
+    return fsm_upper(copy_with_identity_in_sigma(t));
   }
 
   fsm * FomaTransducer::extract_output_language(fsm * t)
   {
     // foma does not handle epsilon transducer properly..
-    return fsm_lower(fsm_copy(t));
+    return fsm_lower(copy_with_identity_in_sigma(t));
   }
 
   fsm * FomaTransducer::substitute(fsm * t,String old_symbol,String new_symbol)
-- 
2.43.0


From 1c8388c6186d8c4702a45ec981a58d95a05abbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:52 +0000
Subject: [PATCH 30/97] fix: parallel replace rules with two or more contexts
 do not ignore the contexts

---
 libhfst/src/HfstXeroxRules.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libhfst/src/HfstXeroxRules.cc b/libhfst/src/HfstXeroxRules.cc
index 3e26d33..6bb05d3 100644
--- a/libhfst/src/HfstXeroxRules.cc
+++ b/libhfst/src/HfstXeroxRules.cc
@@ -1003,6 +1003,10 @@ namespace hfst
                   noContexts = false;
                 }
             }
+          else
+            {
+              noContexts = false;
+            }
 
           //////////////////////////////////////////////////////////////////
           // In case of ? -> x replacement
-- 
2.43.0


From 1f2736bec4b0f60e816eb0d3ce65088c971c7f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:52 +0000
Subject: [PATCH 31/97] fix: rightmost longest match prefers a match that
 starts earlier

---
 libhfst/src/HfstXeroxRules.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/HfstXeroxRules.cc b/libhfst/src/HfstXeroxRules.cc
index 6bb05d3..23fe0fa 100644
--- a/libhfst/src/HfstXeroxRules.cc
+++ b/libhfst/src/HfstXeroxRules.cc
@@ -1670,10 +1670,10 @@ namespace hfst
                   disjunct(RightBracketToEpsilon).
                   disjunct(epsilonToRightBracket).
                   disjunct(B).
-                  optimize();
+                  optionalize().optimize();
 
 
-          // [ B:0 | 0:B | ?-B ]* [?-B]+ [ ? | 0:< | <:0 | 0:> | B ] 0:< [?-B]+ > ?*
+          // [ B:0 | 0:B | ?-B ]* [?-B]+ ([ ? | 0:< | >:0 | 0:> | B ]) 0:< [?-B]+ > ?*
 
           HfstTransducer Constraint(rightPart);
           Constraint.concatenate(identityPairMinusBracketsPlus).
-- 
2.43.0


From 3b3211376446bf5b75b929218b8df03e4fc5c278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:52 +0000
Subject: [PATCH 32/97] fix: replace rules do not delete symbols outside the
 string boundaries

---
 libhfst/src/HfstXeroxRules.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/libhfst/src/HfstXeroxRules.cc b/libhfst/src/HfstXeroxRules.cc
index 23fe0fa..469bc59 100644
--- a/libhfst/src/HfstXeroxRules.cc
+++ b/libhfst/src/HfstXeroxRules.cc
@@ -2195,7 +2195,7 @@ namespace hfst
 
         // to apply boundary marker (.#.)
       /*
-       * [0:.#. | ? - .#.]*
+       * 0:.#. [? - .#.]* 0:.#.
        *         .o.
        *     tr., ie. a -> b || .#. _ ;
        *         .o.
@@ -2231,12 +2231,11 @@ namespace hfst
                                     .concatenate(boundary)
                                     .optimize();
 
-            // [0:.#. | ? - .#.]*
+            // 0:.#. [? - .#.]* 0:.#.
             HfstTransducer zeroToBoundary("@_EPSILON_SYMBOL_@", boundaryMarker, TOK, type);
             HfstTransducer retval(zeroToBoundary);
-            retval.disjunct(identityMinusBoundary)
-                  .optimize()
-                  .repeat_star()
+            retval.concatenate(identityMinusBoundaryStar)
+                  .concatenate(zeroToBoundary)
                   .optimize();
 
             //printf("retval .o. t: \n");
-- 
2.43.0


From 597ac452667902ebbb080a6baba441509e871742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:52 +0000
Subject: [PATCH 33/97] fix: ? in the center of a replace or restriction rule
 does not match the boundary

---
 libhfst/src/HfstXeroxRules.cc | 47 ++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/libhfst/src/HfstXeroxRules.cc b/libhfst/src/HfstXeroxRules.cc
index 469bc59..8ee17c3 100644
--- a/libhfst/src/HfstXeroxRules.cc
+++ b/libhfst/src/HfstXeroxRules.cc
@@ -574,6 +574,43 @@ namespace hfst
 
 
 
+      // An unknown symbol in the center does not match the boundary symbol:
+      // remove from bracketed replace transducer t the paths where .#. occurs
+      // in the input between a left and a right bracket
+      // ~[ ?* [<|<2] [? - [>|>2]]* .#. ?* ] .o. t
+      HfstTransducer removeBoundaryFromCenter( const HfstTransducer &t )
+      {
+          ImplementationType type = t.get_type();
+
+          HfstTransducer identity = HfstTransducer::identity_pair( type );
+          identity.repeat_star().optimize();
+
+          HfstTransducer leftBrackets("@LM@", type);
+          leftBrackets.disjunct(HfstTransducer("@LM2@", type)).optimize();
+          HfstTransducer rightBrackets("@RM@", type);
+          rightBrackets.disjunct(HfstTransducer("@RM2@", type)).optimize();
+
+          HfstTransducer center = HfstTransducer::identity_pair( type );
+          center.subtract(rightBrackets).optimize().repeat_star().optimize();
+
+          HfstTransducer boundaryInCenter(identity);
+          boundaryInCenter.concatenate(leftBrackets)
+            .concatenate(center)
+            .concatenate(HfstTransducer(".#.", type))
+            .concatenate(identity)
+            .optimize();
+
+          HfstTransducer retval(identity);
+          retval.subtract(boundaryInCenter).optimize();
+
+          // the brackets are not matched by unknown symbols of t
+          HfstTransducer tr(t);
+          tr.insert_to_alphabet("@LM2@");
+          tr.insert_to_alphabet("@RM2@");
+          retval.compose(tr).optimize();
+          return retval;
+      }
+
       /*
        * unconditional replace, in multiple contexts
        * first: (.* T<a:b>T .*) - [( .* L1 T<a:b>T R1 .*) u (.* L2 T<a:b>T R2 .*)...],
@@ -785,7 +822,7 @@ namespace hfst
               identityExpanded.remove_from_alphabet(tmpMarker);
               //printf("identityExpanded: \n");
               //identityExpanded.optimize().write_in_att_format(stdout, 1);
-              return identityExpanded;
+              return removeBoundaryFromCenter(identityExpanded);
           }
         }
 
@@ -837,7 +874,7 @@ namespace hfst
         HfstTransducer uncondidtionalTr(identityExpanded);
         uncondidtionalTr.subtract(replaceWithoutContexts).optimize();
 
-        return uncondidtionalTr;
+        return removeBoundaryFromCenter(uncondidtionalTr);
 
   }
 
@@ -1089,7 +1126,7 @@ namespace hfst
             // substitute markers with epsilons
             identityExpanded.substitute(marker_substitutions);
             identityExpanded.remove_from_alphabet(marker_symbols);
-            return identityExpanded;
+            return removeBoundaryFromCenter(identityExpanded);
           }
         
         // if they have contexts, process them
@@ -1257,7 +1294,7 @@ namespace hfst
         uncondidtionalTr.substitute(marker_substitutions);
         uncondidtionalTr.remove_from_alphabet(marker_symbols);
         
-        return uncondidtionalTr;
+        return removeBoundaryFromCenter(uncondidtionalTr);
         
     } 
     
@@ -2875,6 +2912,8 @@ namespace hfst
         // [ U* %<D%> CENTER %<D%> U* ]
         HfstTransducer center(_center);
         center.insert_to_alphabet(restrictionMark);
+        // an unknown symbol in the center does not match the boundary symbol
+        center.insert_to_alphabet(".#.");
 
         HfstTransducer centerMarked(universalWithoutDStar);
         centerMarked.concatenate(mark)
-- 
2.43.0


From 54efaec0e7d870c9aacbbddca863e58a31e7677f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:01 +0000
Subject: [PATCH 34/97] fix: the first lexicon of a lexc file is determined for
 each compiler separately

---
 libhfst/src/parsers/LexcCompiler.cc | 11 ++++++-----
 libhfst/src/parsers/LexcCompiler.h  |  1 +
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/libhfst/src/parsers/LexcCompiler.cc b/libhfst/src/parsers/LexcCompiler.cc
index 64168ba..4fb37aa 100644
--- a/libhfst/src/parsers/LexcCompiler.cc
+++ b/libhfst/src/parsers/LexcCompiler.cc
@@ -115,7 +115,7 @@ LexcCompiler::LexcCompiler()
       output_to_console_(false), winoss_(std::ostringstream()),
       redirected_stream_(NULL),
 #endif
-      parseErrors_(false)
+      parseErrors_(false), firstLexicon_(true)
 {
     xre_.set_expand_definitions(true);
     xre_.set_error_stream(this->error_);
@@ -135,7 +135,7 @@ LexcCompiler::LexcCompiler(ImplementationType impl)
       output_to_console_(false), winoss_(std::ostringstream()),
       redirected_stream_(NULL),
 #endif
-      parseErrors_(false)
+      parseErrors_(false), firstLexicon_(true)
 {
     tokenizer_.add_multichar_symbol("@_EPSILON_SYMBOL_@");
     tokenizer_.add_multichar_symbol("@0@");
@@ -163,7 +163,7 @@ LexcCompiler::LexcCompiler(ImplementationType impl, bool withFlags,
       output_to_console_(false), winoss_(std::ostringstream()),
       redirected_stream_(NULL),
 #endif
-      parseErrors_(false)
+      parseErrors_(false), firstLexicon_(true)
 {
     tokenizer_.add_multichar_symbol("@_EPSILON_SYMBOL_@");
     tokenizer_.add_multichar_symbol("@0@");
@@ -197,6 +197,7 @@ LexcCompiler::reset()
     totalEntries_ = 0;
     currentEntries_ = 0;
     parseErrors_ = false;
+    firstLexicon_ = true;
     lexiconNames_.clear();
     noFlags_.clear();
     continuations_.clear();
@@ -1156,7 +1157,7 @@ LexcCompiler::addXreDefinition(const string &definition_name,
 LexcCompiler &
 LexcCompiler::setCurrentLexiconName(const string &lexiconName)
 {
-    static bool firstLexicon = true;
+    const bool firstLexicon = firstLexicon_;
     currentLexiconName_ = lexiconName;
 
     if (lexiconNames_.find(lexiconName) != lexiconNames_.end())
@@ -1232,7 +1233,7 @@ LexcCompiler::setCurrentLexiconName(const string &lexiconName)
     }
     if (!quiet_)
         *err << lexiconName << "...";
-    firstLexicon = false;
+    firstLexicon_ = false;
 
     flush(err);
 
diff --git a/libhfst/src/parsers/LexcCompiler.h b/libhfst/src/parsers/LexcCompiler.h
index 6838fb7..f4fdf2f 100644
--- a/libhfst/src/parsers/LexcCompiler.h
+++ b/libhfst/src/parsers/LexcCompiler.h
@@ -168,6 +168,7 @@ class LexcCompiler
     const LexcCompiler &printConnectedness(bool &warnings_printed);
 
     bool parseErrors_;
+    bool firstLexicon_;
   private:
     LexcCompiler &unicodeCheck_(const string &data);
     static void warn_about_one_sided_flags(
-- 
2.43.0


From 3f43508527b1cd07ff341438fd68d1c4dc5ac2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:35 +0000
Subject: [PATCH 35/97] fix: compile an empty lexc lexicon with flags

---
 libhfst/src/parsers/LexcCompiler.cc | 90 +++++++++++++++--------------
 1 file changed, 47 insertions(+), 43 deletions(-)

diff --git a/libhfst/src/parsers/LexcCompiler.cc b/libhfst/src/parsers/LexcCompiler.cc
index 4fb37aa..40d5c67 100644
--- a/libhfst/src/parsers/LexcCompiler.cc
+++ b/libhfst/src/parsers/LexcCompiler.cc
@@ -1595,54 +1595,58 @@ LexcCompiler::compileLexical()
             }
         }
 
-        // Construct a rule for consecutive flag removal:
-        // [FLAG1 | FLAG2 ... FLAGN] -> 0 || [FLAG1 | FLAG2 ... FLAGN] _
-        // and also an inverted rule
-        std::string flag_remover_regexp("[ ");
-        bool first_flag = true;
-
-        for (StringSet::const_iterator it = flagD.begin(); it != flagD.end();
-             ++it)
+        // no flags are left if the lexicon is empty
+        if (!flagD.empty())
         {
-            if (!first_flag)
+            // Construct a rule for consecutive flag removal:
+            // [FLAG1 | FLAG2 ... FLAGN] -> 0 || [FLAG1 | FLAG2 ... FLAGN] _
+            // and also an inverted rule
+            std::string flag_remover_regexp("[ ");
+            bool first_flag = true;
+
+            for (StringSet::const_iterator it = flagD.begin(); it != flagD.end();
+                 ++it)
             {
-                flag_remover_regexp.append("| ");
+                if (!first_flag)
+                {
+                    flag_remover_regexp.append("| ");
+                }
+                flag_remover_regexp.append("\"").append(*it).append("\" ");
+                first_flag = false;
             }
-            flag_remover_regexp.append("\"").append(*it).append("\" ");
-            first_flag = false;
-        }
-        flag_remover_regexp.append("]");
-        std::string context_regexp(flag_remover_regexp);
-        flag_remover_regexp.append(" -> 0 || ")
-            .append(context_regexp)
-            .append(" _ ");
+            flag_remover_regexp.append("]");
+            std::string context_regexp(flag_remover_regexp);
+            flag_remover_regexp.append(" -> 0 || ")
+                .append(context_regexp)
+                .append(" _ ");
 
-        if (debug)
-        {
-            fprintf(stderr, "flag_remover_regexp: %s\n",
-                    flag_remover_regexp.c_str());
-        }
+            if (debug)
+            {
+                fprintf(stderr, "flag_remover_regexp: %s\n",
+                        flag_remover_regexp.c_str());
+            }
 
-        hfst::xre::XreCompiler xre_comp(format_);
-
-        HfstTransducer *flag_filter = xre_comp.compile(flag_remover_regexp);
-        flag_filter->optimize();
-        HfstTransducer *inverted_flag_filter
-            = new HfstTransducer(*flag_filter);
-        inverted_flag_filter->invert().optimize();
-
-        // [ [FLAG1 | FLAG2 ... FLAGN] -> 0 || [FLAG1 | FLAG2 ... FLAGN] _
-        // ].inv
-        //                        .o.
-        //                       RESULT
-        //                        .o.
-        // [FLAG1 | FLAG2 ... FLAGN] -> 0 || [FLAG1 | FLAG2 ... FLAGN] _
-        HfstTransducer filtered_lexicons(*inverted_flag_filter);
-        filtered_lexicons.compose(*rv, true);
-        filtered_lexicons.compose(*flag_filter, true).optimize();
-        delete inverted_flag_filter;
-
-        rv->assign(filtered_lexicons);
+            hfst::xre::XreCompiler xre_comp(format_);
+
+            HfstTransducer *flag_filter = xre_comp.compile(flag_remover_regexp);
+            flag_filter->optimize();
+            HfstTransducer *inverted_flag_filter
+                = new HfstTransducer(*flag_filter);
+            inverted_flag_filter->invert().optimize();
+
+            // [ [FLAG1 | FLAG2 ... FLAGN] -> 0 || [FLAG1 | FLAG2 ... FLAGN] _
+            // ].inv
+            //                        .o.
+            //                       RESULT
+            //                        .o.
+            // [FLAG1 | FLAG2 ... FLAGN] -> 0 || [FLAG1 | FLAG2 ... FLAGN] _
+            HfstTransducer filtered_lexicons(*inverted_flag_filter);
+            filtered_lexicons.compose(*rv, true);
+            filtered_lexicons.compose(*flag_filter, true).optimize();
+            delete inverted_flag_filter;
+
+            rv->assign(filtered_lexicons);
+        }
     }
 
     rv->optimize();
-- 
2.43.0


From 648d9f23aa4f5c624793d5d8bc6fd93f512bd669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:58 +0000
Subject: [PATCH 36/97] fix: harmonize the graphs of a substitution also with
 each other

---
 libhfst/src/implementations/HfstBasicTransducer.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/implementations/HfstBasicTransducer.cc b/libhfst/src/implementations/HfstBasicTransducer.cc
index 7cde506..b4db9b4 100644
--- a/libhfst/src/implementations/HfstBasicTransducer.cc
+++ b/libhfst/src/implementations/HfstBasicTransducer.cc
@@ -2879,9 +2879,14 @@ HfstBasicTransducer::substitute(SubstMap &substitution_map, bool harmonize)
     // Harmonize the resulting and the substituting graphs, if needed
     if (harmonize)
     {
-        for (const auto &sym_it : substitutions_performed_for_symbols)
+        // the second round makes the symbols of the later graphs known
+        // to the earlier ones
+        for (int i = 0; i < 2; i++)
         {
-            this->harmonize(substitution_map.at(sym_it));
+            for (const auto &sym_it : substitutions_performed_for_symbols)
+            {
+                this->harmonize(substitution_map.at(sym_it));
+            }
         }
     }
 
-- 
2.43.0


From 861556f9221eec11b95db8f12885da9f235362d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:41 +0000
Subject: [PATCH 37/97] fix: keep lexc regular expression entries of different
 lexicons and weights separate

---
 libhfst/src/parsers/LexcCompiler.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/parsers/LexcCompiler.cc b/libhfst/src/parsers/LexcCompiler.cc
index 40d5c67..5967ec2 100644
--- a/libhfst/src/parsers/LexcCompiler.cc
+++ b/libhfst/src/parsers/LexcCompiler.cc
@@ -19,6 +19,7 @@
 #include <ctime>
 #include <map>
 #include <set>
+#include <sstream>
 #include <string>
 #include <vector>
 
@@ -1088,8 +1089,12 @@ LexcCompiler::addXreEntry(const string &regexp, const string &continuation,
     }
 
     // encode key
-    // keep regexps with different continuations separate
-    string regex_key = currentLexiconName_ + "_" + continuation;
+    // keep regexps with different continuations or weights separate
+    std::ostringstream regex_key_stream;
+    regex_key_stream << currentLexiconName_.size() << "_"
+                     << currentLexiconName_ << "_" << continuation << "_"
+                     << weight;
+    string regex_key = regex_key_stream.str();
 
     regExpresionEncode(regex_key);
     tokenizer_.add_multichar_symbol(regex_key);
-- 
2.43.0


From 4df9c33ad1cba8ea45b82c8f2b5e431bafbc6aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:06 +0000
Subject: [PATCH 38/97] fix: errors of one lexc compilation do not fail the
 following ones

---
 libhfst/src/parsers/LexcCompiler.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libhfst/src/parsers/LexcCompiler.cc b/libhfst/src/parsers/LexcCompiler.cc
index 5967ec2..0d9f9ba 100644
--- a/libhfst/src/parsers/LexcCompiler.cc
+++ b/libhfst/src/parsers/LexcCompiler.cc
@@ -281,6 +281,7 @@ LexcCompiler::parse(FILE *infile)
     }
     hlexclex_destroy();
     hlexcin = infile;
+    hlexcnerrs = 0;
     hlexcparse();
     xre_.remove_defined_multichar_symbols();
     if (hlexcnerrs > 0)
@@ -309,6 +310,7 @@ LexcCompiler::parse(const char *filename)
         parseErrors_ = true;
         return *this;
     }
+    hlexcnerrs = 0;
     hlexcparse();
     xre_.remove_defined_multichar_symbols();
     if (hlexcnerrs > 0)
-- 
2.43.0


From 2c51244031a33fa4b4bd84bcbe6ced7111c7c127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:06 +0000
Subject: [PATCH 39/97] fix: initialise the one-sided flag warning of lexc

---
 libhfst/src/parsers/LexcCompiler.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libhfst/src/parsers/LexcCompiler.cc b/libhfst/src/parsers/LexcCompiler.cc
index 0d9f9ba..2265ca1 100644
--- a/libhfst/src/parsers/LexcCompiler.cc
+++ b/libhfst/src/parsers/LexcCompiler.cc
@@ -108,7 +108,8 @@ LexcCompiler::LexcCompiler()
       split_characters_(false), treat_warnings_as_errors_(false),
       warn_everything_(false), warn_missing_lexicons_(false),
       warn_unused_lexicons_(false), warn_repeated_lexicons_(false),
-      warn_missing_alphabets_(false), warn_unnecessary_escapes_(false),
+      warn_missing_alphabets_(false), warn_one_sided_flags_(false),
+      warn_unnecessary_escapes_(false),
       error_(&std::cerr), format_(TROPICAL_OPENFST_TYPE),
       xre_(TROPICAL_OPENFST_TYPE), initialLexiconName_("Root"),
       totalEntries_(0), currentEntries_(0),
@@ -129,7 +130,8 @@ LexcCompiler::LexcCompiler(ImplementationType impl)
       split_characters_(false), treat_warnings_as_errors_(false),
       warn_everything_(false), warn_missing_lexicons_(false),
       warn_unused_lexicons_(false), warn_repeated_lexicons_(false),
-      warn_missing_alphabets_(false), warn_unnecessary_escapes_(false),
+      warn_missing_alphabets_(false), warn_one_sided_flags_(false),
+      warn_unnecessary_escapes_(false),
       error_(&std::cerr), format_(impl), xre_(impl),
       initialLexiconName_("Root"), totalEntries_(0), currentEntries_(0),
 #ifdef WINDOWS
@@ -157,7 +159,8 @@ LexcCompiler::LexcCompiler(ImplementationType impl, bool withFlags,
       split_characters_(false), treat_warnings_as_errors_(false),
       warn_everything_(false), warn_missing_lexicons_(false),
       warn_unused_lexicons_(false), warn_repeated_lexicons_(false),
-      warn_missing_alphabets_(false), warn_unnecessary_escapes_(false),
+      warn_missing_alphabets_(false), warn_one_sided_flags_(false),
+      warn_unnecessary_escapes_(false),
       error_(&std::cerr), format_(impl), xre_(impl),
       initialLexiconName_("Root"), totalEntries_(0), currentEntries_(0),
 #ifdef WINDOWS
-- 
2.43.0


From eb3f5f93b73647dd0905ffcf75883eab40b0bb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:06 +0000
Subject: [PATCH 40/97] fix: lexc with flags keeps entries that contain other
 flag diacritics

---
 libhfst/src/parsers/LexcCompiler.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libhfst/src/parsers/LexcCompiler.cc b/libhfst/src/parsers/LexcCompiler.cc
index 2265ca1..5a19182 100644
--- a/libhfst/src/parsers/LexcCompiler.cc
+++ b/libhfst/src/parsers/LexcCompiler.cc
@@ -1594,6 +1594,9 @@ LexcCompiler::compileLexical()
     {
         StringSet transducerAlphabet = rv->get_alphabet();
         StringSet flagD;
+        // all other flag diacritics, not matched by an identity
+        StringPairSet identities;
+        identities.insert(StringPair(internal_identity, internal_identity));
         for (StringSet::const_iterator s = transducerAlphabet.begin();
              s != transducerAlphabet.end(); ++s)
         {
@@ -1603,6 +1606,10 @@ LexcCompiler::compileLexical()
             {
                 flagD.insert(alph);
             }
+            else if (FdOperation::is_diacritic(alph))
+            {
+                identities.insert(StringPair(alph, alph));
+            }
         }
 
         // no flags are left if the lexicon is empty
@@ -1639,6 +1646,8 @@ LexcCompiler::compileLexical()
             hfst::xre::XreCompiler xre_comp(format_);
 
             HfstTransducer *flag_filter = xre_comp.compile(flag_remover_regexp);
+            flag_filter->substitute(
+                StringPair(internal_identity, internal_identity), identities);
             flag_filter->optimize();
             HfstTransducer *inverted_flag_filter
                 = new HfstTransducer(*flag_filter);
-- 
2.43.0


From 43bd0ac4d90dce9b86c72d1038ebdeb374a1dab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:24 +0000
Subject: [PATCH 41/97] fix: do not dereference the end of a set in
 compose-intersect

---
 .../compose_intersect/ComposeIntersectUtilities.h              | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libhfst/src/implementations/compose_intersect/ComposeIntersectUtilities.h b/libhfst/src/implementations/compose_intersect/ComposeIntersectUtilities.h
index fbf2d79..8c66b4e 100644
--- a/libhfst/src/implementations/compose_intersect/ComposeIntersectUtilities.h
+++ b/libhfst/src/implementations/compose_intersect/ComposeIntersectUtilities.h
@@ -54,8 +54,7 @@ namespace hfst
       void insert(const X &x)
       {
         iterator least_upper_bound = get_least_upper_bound(x);
-        const X &new_x = *least_upper_bound;
-        if (least_upper_bound == end() || !(x == new_x))
+        if (least_upper_bound == end() || !(x == *least_upper_bound))
           { add_value(x,least_upper_bound); }
       }
 
-- 
2.43.0


From 236fd9344f305d73f0da99d81c6496e47a07d9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:24 +0000
Subject: [PATCH 42/97] fix: compose-intersect with no rules does not read the
 first rule

---
 libhfst/src/HfstTransducer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index ab4c068..7892d67 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -4876,6 +4876,11 @@ HfstTransducer::compose_intersect(const HfstTransducerVector &v, bool invert,
     if (v.empty())
     {
         *this = HfstTransducer(type);
+        if (convert_to_openfst)
+        {
+            this->convert(FOMA_TYPE);
+        }
+        return *this;
     }
 
     const HfstTransducer &first = *v.begin();
-- 
2.43.0


From 3530ba804fd3e0a9e9c713ba9d2367ec271054bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:24 +0000
Subject: [PATCH 43/97] fix: inverted compose-intersect with one rule inverts
 the result back

---
 libhfst/src/HfstTransducer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 7892d67..34192c8 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -4959,6 +4959,11 @@ HfstTransducer::compose_intersect(const HfstTransducerVector &v, bool invert,
 
         res.prune_alphabet();
         *this = HfstTransducer(res, type);
+
+        if (invert)
+        {
+            this->invert();
+        }
     }
     else
     {
-- 
2.43.0


From 3dfff969195e8bcfb5b4c99ca6390b59224119bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:24 +0000
Subject: [PATCH 44/97] fix: compose-intersect combines all transitions of
 nondeterministic rules

---
 .../ComposeIntersectRulePair.cc               | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/libhfst/src/implementations/compose_intersect/ComposeIntersectRulePair.cc b/libhfst/src/implementations/compose_intersect/ComposeIntersectRulePair.cc
index 2f99c07..dc5a5cd 100644
--- a/libhfst/src/implementations/compose_intersect/ComposeIntersectRulePair.cc
+++ b/libhfst/src/implementations/compose_intersect/ComposeIntersectRulePair.cc
@@ -109,11 +109,23 @@ namespace hfst
     {
       if (it->olabel == jt->olabel)
         {
+          // The rules need not be deterministic, so combine all
+          // transitions with this output symbol.
           size_t output = it->olabel;
-          HfstState target = get_state(StatePair(it->target,jt->target));
-          float weight = it->weight + jt->weight;
-          add_transition(transitions,target,symbol,output,weight);
-          ++it; ++jt;
+          ComposeIntersectRule::TransitionSet::const_iterator jt_end = jt;
+          for ( ; it != fst1_transitions.end() && it->olabel == output; ++it)
+        {
+          for (jt_end = jt;
+               jt_end != fst2_transitions.end() && jt_end->olabel == output;
+               ++jt_end)
+            {
+              HfstState target =
+            get_state(StatePair(it->target,jt_end->target));
+              float weight = it->weight + jt_end->weight;
+              add_transition(transitions,target,symbol,output,weight);
+            }
+        }
+          jt = jt_end;
         }
       else if (it->olabel < jt->olabel)
         { ++it; }
-- 
2.43.0


From 740b915439f6c5091ec40f5373fe305b2b81e3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:54 +0000
Subject: [PATCH 45/97] fix: compose-intersect keeps the symbols known to the
 lexicon or any rule apart from unknown ones

---
 libhfst/src/HfstTransducer.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index 34192c8..d4b1926 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -4908,14 +4908,16 @@ HfstTransducer::compose_intersect(const HfstTransducerVector &v, bool invert,
         *this = wb;
     }
 
-    HfstTransducer rule_1 = v.at(0);
-
-    if (convert_to_openfst)
+    // The unknown and identity symbols of the lexicon must not stand for
+    // symbols known to any of the rules.
+    HfstTransducer rule_symbols(this->get_type());
+    for (HfstTransducerVector::const_iterator it = v.begin(); it != v.end();
+         ++it)
     {
-        rule_1.convert(TROPICAL_OPENFST_TYPE);
+        rule_symbols.insert_to_alphabet(it->get_alphabet());
     }
 
-    HfstTransducer *harmonized_lexicon = rule_1.harmonize_(*this);
+    HfstTransducer *harmonized_lexicon = rule_symbols.harmonize_(*this);
 
     if (harmonized_lexicon == NULL)
     {
@@ -4929,6 +4931,8 @@ HfstTransducer::compose_intersect(const HfstTransducerVector &v, bool invert,
                                        StringPair(internal_epsilon, "@#@"));
     }
 
+    const StringSet known_symbols = harmonized_lexicon->get_alphabet();
+
     harmonized_lexicon->substitute(internal_identity, "||_IDENTITY_SYMBOL_||");
     harmonized_lexicon->substitute(internal_unknown, "||_UNKNOWN_SYMBOL_||");
 
@@ -4957,7 +4961,6 @@ HfstTransducer::compose_intersect(const HfstTransducerVector &v, bool invert,
         hfst::implementations::HfstBasicTransducer res
             = lexicon.compose_with_rules(&rule);
 
-        res.prune_alphabet();
         *this = HfstTransducer(res, type);
 
         if (invert)
@@ -5031,7 +5034,6 @@ HfstTransducer::compose_intersect(const HfstTransducerVector &v, bool invert,
         hfst::implementations::HfstBasicTransducer res
             = lexicon.compose_with_rules(rules);
 
-        res.prune_alphabet();
         *this = HfstTransducer(res, type);
 
         if (invert)
@@ -5047,6 +5049,11 @@ HfstTransducer::compose_intersect(const HfstTransducerVector &v, bool invert,
     this->substitute("||_IDENTITY_SYMBOL_||", internal_identity);
     this->substitute("||_UNKNOWN_SYMBOL_||", internal_unknown);
 
+    // The symbols known to the lexicon or the rules remain known, if they
+    // would otherwise be matched by the unknown or identity symbols.
+    this->insert_to_alphabet(known_symbols);
+    this->prune_alphabet(false);
+
     if (convert_to_openfst)
     {
         this->convert(FOMA_TYPE);
-- 
2.43.0


From 022d74f4ebedb993b21a7c96051558f9fab7feeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:33 +0000
Subject: [PATCH 46/97] fix: compose-intersect keeps all identity transitions
 of a rule state

---
 .../compose_intersect/ComposeIntersectFst.cc  | 37 +++++++------------
 .../compose_intersect/ComposeIntersectFst.h   |  4 +-
 2 files changed, 16 insertions(+), 25 deletions(-)

diff --git a/libhfst/src/implementations/compose_intersect/ComposeIntersectFst.cc b/libhfst/src/implementations/compose_intersect/ComposeIntersectFst.cc
index 81aacd4..a31cc88 100644
--- a/libhfst/src/implementations/compose_intersect/ComposeIntersectFst.cc
+++ b/libhfst/src/implementations/compose_intersect/ComposeIntersectFst.cc
@@ -95,6 +95,7 @@ namespace hfst
        ++it)
     {
       transition_map_vector.push_back(SymbolTransitionMap());
+      identity_transition_vector.push_back(TransitionVector());
       if (this->t.is_final_state(source_state))
         { finality_vector.push_back(this->t.get_final_weight(source_state)); }
       else
@@ -103,17 +104,13 @@ namespace hfst
       ++source_state;
       SymbolTransitionMap &symbol_transition_map =
         transition_map_vector.back();
-      bool identity_found = false;
       for (std::vector<HfstBasicTransition>::const_iterator jt =
          it->begin();
            jt != it->end();
            ++jt)
         {
           if (jt->get_input_symbol() == "@_IDENTITY_SYMBOL_@")
-        {
-          identity_found = true;
-          identity_transition_vector.push_back(*jt);
-        }
+        { identity_transition_vector.back().push_back(*jt); }
           else
         { symbol_transition_map
             [input_keys ?
@@ -123,15 +120,6 @@ namespace hfst
              (jt->get_output_symbol())].
             insert(*jt); }
         }
-      if (! identity_found)
-        { identity_transition_vector.push_back
-        (Transition
-         (0,
-          HfstTropicalTransducerTransitionData::get_number
-          ("@_EPSILON_SYMBOL_@"),
-          HfstTropicalTransducerTransitionData::get_number
-          ("@_EPSILON_SYMBOL_@"),
-          0)); }
     }
     }
 
@@ -161,12 +149,17 @@ namespace hfst
         { return transition_map_vector.at(s)[symbol] = TransitionSet(); }
       else
         {
-          Transition identity_transition =
-        get_identity_transition(s);
+          const TransitionVector &identity_transitions =
+        get_identity_transitions(s);
           transition_map_vector.at(s)[symbol] = TransitionSet();
+          for (TransitionVector::const_iterator it =
+             identity_transitions.begin();
+           it != identity_transitions.end();
+           ++it)
+        {
           transition_map_vector.at(s)[symbol].insert
-        (Transition(identity_transition.target,symbol,symbol,
-                identity_transition.weight));
+            (Transition(it->target,symbol,symbol,it->weight));
+        }
           return transition_map_vector.at(s)[symbol];
         }
     }
@@ -176,8 +169,8 @@ namespace hfst
     bool ComposeIntersectFst::is_known_symbol(size_t symbol) const
     { return symbol_set.find(symbol) != symbol_set.end(); }
 
-    ComposeIntersectFst::Transition
-    ComposeIntersectFst::get_identity_transition
+    const ComposeIntersectFst::TransitionVector &
+    ComposeIntersectFst::get_identity_transitions
     (HfstState s)
     {
       if (s >= transition_map_vector.size())
@@ -189,9 +182,7 @@ namespace hfst
     {
       if (s >= transition_map_vector.size())
     { HFST_THROW(StateNotDefined); }
-      return identity_transition_vector.at(s).ilabel
-    == HfstTropicalTransducerTransitionData::get_number
-    ("@_IDENTITY_SYMBOL_@");
+      return ! identity_transition_vector.at(s).empty();
     }
 
     const ComposeIntersectFst::SymbolSet
diff --git a/libhfst/src/implementations/compose_intersect/ComposeIntersectFst.h b/libhfst/src/implementations/compose_intersect/ComposeIntersectFst.h
index 42039d4..fbc2b3a 100644
--- a/libhfst/src/implementations/compose_intersect/ComposeIntersectFst.h
+++ b/libhfst/src/implementations/compose_intersect/ComposeIntersectFst.h
@@ -61,7 +61,7 @@ namespace hfst
       typedef std::vector<SymbolTransitionMap> TransitionMapVector;
       typedef std::vector<Transition> TransitionVector;
       typedef std::vector<float> FloatVector;
-      Transition get_identity_transition(HfstState);
+      const TransitionVector &get_identity_transitions(HfstState);
       bool has_identity_transition(HfstState);
       bool is_known_symbol(size_t) const;
       size_t get_symbol_number(const std::string &symbol);
@@ -69,7 +69,7 @@ namespace hfst
       SymbolSet symbol_set;
       TransitionMapVector transition_map_vector;
       FloatVector finality_vector;
-      TransitionVector identity_transition_vector;
+      std::vector<TransitionVector> identity_transition_vector;
     };
   }
 }
-- 
2.43.0


From 9604a3f7e399c5114bee4c54e0d493ca2ca5f712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:52 +0000
Subject: [PATCH 47/97] fix: @_TAB_@ in strings to compile stands for one
 tabulator

---
 libhfst/src/HfstStrings2FstTokenizer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhfst/src/HfstStrings2FstTokenizer.cc b/libhfst/src/HfstStrings2FstTokenizer.cc
index 857e80d..d5a6cb9 100644
--- a/libhfst/src/HfstStrings2FstTokenizer.cc
+++ b/libhfst/src/HfstStrings2FstTokenizer.cc
@@ -219,7 +219,7 @@ HfstStrings2FstTokenizer::unescape(std::string symbol)
     pos = 0;
     while ((pos = symbol.find(TAB_ESCAPE)) != std::string::npos)
     {
-        symbol.replace(pos, strlen(TAB_ESCAPE), "   ");
+        symbol.replace(pos, strlen(TAB_ESCAPE), "\t");
     }
 
     pos = 0;
-- 
2.43.0


From 81fcb119372f30e9e9d49667be8096641ff53d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:52 +0000
Subject: [PATCH 48/97] fix: an escaped colon may follow an escaped backslash

---
 libhfst/src/HfstStrings2FstTokenizer.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libhfst/src/HfstStrings2FstTokenizer.cc b/libhfst/src/HfstStrings2FstTokenizer.cc
index d5a6cb9..8b6a2bb 100644
--- a/libhfst/src/HfstStrings2FstTokenizer.cc
+++ b/libhfst/src/HfstStrings2FstTokenizer.cc
@@ -268,11 +268,14 @@ HfstStrings2FstTokenizer::check_cols(const std::string &symbol)
         size_t pos = 0;
         while ((pos = symbol.find(COL_CHAR, pos + 1)) != std::string::npos)
         {
-            if (symbol[pos - 1] != BACKSLASH_CHAR)
+            // an odd number of backslashes escapes the colon
+            size_t backslashes = 0;
+            while (backslashes < pos
+                   && symbol[pos - 1 - backslashes] == BACKSLASH_CHAR)
             {
-                throw UnescapedColsFound();
+                ++backslashes;
             }
-            if (pos > 1 && symbol[pos - 2] == BACKSLASH_CHAR)
+            if (backslashes % 2 == 0)
             {
                 throw UnescapedColsFound();
             }
-- 
2.43.0


From 56b73cba9b3da6baf97d8bbaca34ebe6fd5d41bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:52 +0000
Subject: [PATCH 49/97] fix: an escaped backslash inside a space-separated
 symbol is kept

---
 libhfst/src/HfstStrings2FstTokenizer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhfst/src/HfstStrings2FstTokenizer.cc b/libhfst/src/HfstStrings2FstTokenizer.cc
index 8b6a2bb..3af7d16 100644
--- a/libhfst/src/HfstStrings2FstTokenizer.cc
+++ b/libhfst/src/HfstStrings2FstTokenizer.cc
@@ -207,7 +207,7 @@ HfstStrings2FstTokenizer::unescape(std::string symbol)
     pos = 0;
     while ((pos = symbol.find(BACKSLASH_ESC)) != std::string::npos)
     {
-        symbol.replace(pos, strlen(BACKSLASH_ESC), EMPTY);
+        symbol.replace(pos, strlen(BACKSLASH_ESC), BACKSLASH);
     }
 
     pos = 0;
-- 
2.43.0


From f0bb75239734a3b37d8fc53dd03c6c7c6efd32c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:52 +0000
Subject: [PATCH 50/97] fix: room for the byte 255 in the trie of
 multicharacter symbols

---
 libhfst/src/HfstTokenizer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/HfstTokenizer.cc b/libhfst/src/HfstTokenizer.cc
index c80e07b..43d6eea 100644
--- a/libhfst/src/HfstTokenizer.cc
+++ b/libhfst/src/HfstTokenizer.cc
@@ -62,8 +62,8 @@ MultiCharSymbolTrie::get_symbol_rest_trie(const char *p) const
 }
 
 MultiCharSymbolTrie::MultiCharSymbolTrie(void)
-    : symbol_rests(UCHAR_MAX, (MultiCharSymbolTrie *)NULL),
-      is_leaf(UCHAR_MAX, false)
+    : symbol_rests(UCHAR_MAX + 1, (MultiCharSymbolTrie *)NULL),
+      is_leaf(UCHAR_MAX + 1, false)
 {
 }
 
-- 
2.43.0


From 2ddc546346ff3d91552a5b77daa144785bd5a530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:52 +0000
Subject: [PATCH 51/97] fix: the tokenizer frees its buffers and rejects
 symbols that end inside a character

---
 libhfst/src/HfstTokenizer.cc | 49 ++++++++++++------------------------
 1 file changed, 16 insertions(+), 33 deletions(-)

diff --git a/libhfst/src/HfstTokenizer.cc b/libhfst/src/HfstTokenizer.cc
index 43d6eea..ac38f5a 100644
--- a/libhfst/src/HfstTokenizer.cc
+++ b/libhfst/src/HfstTokenizer.cc
@@ -135,51 +135,34 @@ HfstTokenizer::get_next_symbol_size(const char *symbol,
     if (!split_characters)
     {
         UErrorCode status = U_ZERO_ERROR;
-        UChar *ICUdata = (UChar *)malloc(sizeof(UChar) * (strlen(symbol) + 1));
+        std::vector<UChar> ICUdata(strlen(symbol) + 1);
         int32_t length = 0;
-        ICUdata = u_strFromUTF8(ICUdata, strlen(symbol) + 1, &length, symbol,
-                                -1, &status);
+        u_strFromUTF8(ICUdata.data(), (int32_t)ICUdata.size(), &length, symbol,
+                      -1, &status);
         if (U_FAILURE(status))
         {
-            fprintf(stderr, "ICU error converting UTF-8 %s to UChars: %s\n",
-                    symbol, u_errorName(status));
+            // no symbol ends here, e.g. inside a character
+            HFST_THROW_MESSAGE(IncorrectUtf8CodingException,
+                               u_errorName(status));
         }
-        status = U_ZERO_ERROR;
-        UBreakIterator *graphemes;
-        graphemes = ubrk_open(UBRK_CHARACTER, "C", NULL, -1, &status);
-        if (U_FAILURE(status))
-        {
-            fprintf(stderr,
-                    "ICU error trying to open grapheme segmenter: %s\n",
-                    u_errorName(status));
-        }
-        status = U_ZERO_ERROR;
-        ubrk_setText(graphemes, ICUdata, length, &status);
+        UBreakIterator *graphemes = ubrk_open(UBRK_CHARACTER, "C",
+                                              ICUdata.data(), length, &status);
         if (U_FAILURE(status))
         {
-            fprintf(stderr, "ICU error trying to get graphemes from %s: %s\n",
-                    symbol, u_errorName(status));
+            HFST_THROW_MESSAGE(HfstException, u_errorName(status));
         }
-        status = U_ZERO_ERROR;
         int32_t begin = ubrk_first(graphemes);
         int32_t end = ubrk_next(graphemes);
-        if (begin == end)
+        ubrk_close(graphemes);
+        if (end == UBRK_DONE || begin == end)
         {
             return 0;
         }
-        if (end == UBRK_DONE)
-        {
-            return 0;
-        }
-        char *grapheme = (char *)malloc(sizeof(char) * (end - begin) * 4 + 1);
-        grapheme = u_strToUTF8(grapheme, (end - begin) * 4 + 1, &length,
-                               &ICUdata[begin], end - begin, &status);
-        if (U_FAILURE(status))
-        {
-            fprintf(stderr, "ICU error getting UTF-8 from grpaheme: %s\n",
-                    u_errorName(status));
-        }
-        return (strlen(grapheme)); // strlen is number of bytes
+        int32_t bytes = 0;
+        // only the number of bytes is needed
+        u_strToUTF8(NULL, 0, &bytes, ICUdata.data() + begin, end - begin,
+                    &status);
+        return bytes;
     }
     /* split_characters => take next UTF-8 only */
     else
-- 
2.43.0


From 70e57d4ff3d0299095373dd7006ed3fda7bb1dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:59 +0000
Subject: [PATCH 52/97] fix: a needless backslash in a string to compile is no
 empty symbol

---
 libhfst/src/HfstStrings2FstTokenizer.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libhfst/src/HfstStrings2FstTokenizer.cc b/libhfst/src/HfstStrings2FstTokenizer.cc
index 3af7d16..486b12e 100644
--- a/libhfst/src/HfstStrings2FstTokenizer.cc
+++ b/libhfst/src/HfstStrings2FstTokenizer.cc
@@ -129,10 +129,12 @@ HfstStrings2FstTokenizer::make_pair_vector(const StringVector &v)
         else
         {
             std::string input
-                = (it->empty() || *it == eps ? EPSILON_SYMBOL : unescape(*it));
+                = (unescape(*it).empty() || *it == eps ? EPSILON_SYMBOL
+                                                       : unescape(*it));
             ++(++it);
             std::string output
-                = (it->empty() || *it == eps ? EPSILON_SYMBOL : unescape(*it));
+                = (unescape(*it).empty() || *it == eps ? EPSILON_SYMBOL
+                                                       : unescape(*it));
             spv.push_back(StringPair(input, output));
         }
     }
@@ -164,7 +166,8 @@ HfstStrings2FstTokenizer::make_pair_vector(const StringVector &input,
         for (; output_it != output.end(); ++output_it)
         {
             spv.push_back(StringPair(EPSILON_SYMBOL,
-                                     output_it->empty() || *output_it == eps
+                                     unescape(*output_it).empty()
+                                             || *output_it == eps
                                          ? EPSILON_SYMBOL
                                          : unescape(*output_it)));
         }
@@ -173,7 +176,8 @@ HfstStrings2FstTokenizer::make_pair_vector(const StringVector &input,
     {
         for (; input_it != input.end(); ++input_it)
         {
-            spv.push_back(StringPair(input_it->empty() || *input_it == eps
+            spv.push_back(StringPair(unescape(*input_it).empty()
+                                             || *input_it == eps
                                          ? EPSILON_SYMBOL
                                          : unescape(*input_it),
                                      EPSILON_SYMBOL));
-- 
2.43.0


From 1289680427a5fe2d98b1a1f7b3f95023ee9004e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:59 +0000
Subject: [PATCH 53/97] fix: an escaped multicharacter symbol that begins with
 another one

---
 libhfst/src/HfstStrings2FstTokenizer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libhfst/src/HfstStrings2FstTokenizer.cc b/libhfst/src/HfstStrings2FstTokenizer.cc
index 486b12e..20c8a48 100644
--- a/libhfst/src/HfstStrings2FstTokenizer.cc
+++ b/libhfst/src/HfstStrings2FstTokenizer.cc
@@ -42,6 +42,11 @@ HfstStrings2FstTokenizer::HfstStrings2FstTokenizer(
          it != multichar_symbols.end(); ++it)
     {
         add_multichar_symbol_head(*it);
+    }
+    // the head of a symbol must not be another multicharacter symbol
+    for (StringVector::const_iterator it = multichar_symbols.begin();
+         it != multichar_symbols.end(); ++it)
+    {
         add_multichar_symbol(*it);
     }
 }
-- 
2.43.0


From b6615505fa7354789ed813957955e8fe84687126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:02 +0000
Subject: [PATCH 54/97] fix: a union of two-level rule centers keeps every pair
 of a set pair

---
 libhfst/src/parsers/htwolcpre3-parser.yy | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/parsers/htwolcpre3-parser.yy b/libhfst/src/parsers/htwolcpre3-parser.yy
index 25eb7b4..cb44052 100644
--- a/libhfst/src/parsers/htwolcpre3-parser.yy
+++ b/libhfst/src/parsers/htwolcpre3-parser.yy
@@ -279,7 +279,7 @@ RULE_CENTER: CENTER_PAIR
 | RULE_CENTER UNION CENTER_PAIR
 {
   $$ = $1;
-  $$->push_back(*$3->begin());
+  $$->insert($$->end(),$3->begin(),$3->end());
   delete $3;
 }
 | LEFT_SQUARE_BRACKET CENTER_LIST RIGHT_SQUARE_BRACKET
@@ -293,7 +293,7 @@ CENTER_LIST: CENTER_PAIR
 | CENTER_LIST UNION CENTER_PAIR
 {
   $$ = $1;
-  $$->push_back(*$3->begin());
+  $$->insert($$->end(),$3->begin(),$3->end());
   delete $3;
 }
 
-- 
2.43.0


From 9832f49cb902db0f14b75a0ca170586b3e36f09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:19 +0000
Subject: [PATCH 55/97] fix: compiling a two-level grammar is not affected by
 an earlier compilation

---
 libhfst/src/parsers/htwolcpre1-lexer.ll  | 4 ++++
 libhfst/src/parsers/htwolcpre1-parser.yy | 2 +-
 libhfst/src/parsers/htwolcpre2-lexer.ll  | 4 ++++
 libhfst/src/parsers/htwolcpre3-parser.yy | 4 ++++
 4 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/parsers/htwolcpre1-lexer.ll b/libhfst/src/parsers/htwolcpre1-lexer.ll
index c1df1d4..ca85841 100644
--- a/libhfst/src/parsers/htwolcpre1-lexer.ll
+++ b/libhfst/src/parsers/htwolcpre1-lexer.ll
@@ -65,6 +65,8 @@ result = 1; \
 
   void reduce_queue(bool variable_symbol=false);
 
+extern int htwolcpre1lex_destroy(void);
+
 namespace hfst {
 namespace twolcpre1 {
 void reset_lexer()
@@ -72,6 +74,8 @@ void reset_lexer()
   regexp_start = false;
   htwolcpre1_rules_start = false;
   where_seen = false;
+  // Forget what was buffered of an input that failed to parse.
+  htwolcpre1lex_destroy();
 }
 }
 }
diff --git a/libhfst/src/parsers/htwolcpre1-parser.yy b/libhfst/src/parsers/htwolcpre1-parser.yy
index be130a2..4ebd8b7 100644
--- a/libhfst/src/parsers/htwolcpre1-parser.yy
+++ b/libhfst/src/parsers/htwolcpre1-parser.yy
@@ -126,7 +126,7 @@ void reset_parser()
   htwolcpre1_input_reader.reset();
   variable_value_map = VariableValueMap();
   rule_variables = RuleVariables();
-  //rule_symbol_vector.reset();
+  rule_symbol_vector.clear();
   htwolcpre1_symbol_queue = HandyDeque<std::string>();
   sets = HandySet<std::string>();
   definitions = HandySet<std::string>();
diff --git a/libhfst/src/parsers/htwolcpre2-lexer.ll b/libhfst/src/parsers/htwolcpre2-lexer.ll
index 1eb9a68..07b57ca 100644
--- a/libhfst/src/parsers/htwolcpre2-lexer.ll
+++ b/libhfst/src/parsers/htwolcpre2-lexer.ll
@@ -59,11 +59,15 @@ result = 1; \
   // __HFST_TWOLC_; is seen.
   bool alphabet_ended = false;
 
+extern int htwolcpre2lex_destroy(void);
+
 namespace hfst {
 namespace twolcpre2 {
 void reset_lexer()
 {
   alphabet_ended = false;
+  // Forget what was buffered of an input that failed to parse.
+  htwolcpre2lex_destroy();
 }
 }}
 
diff --git a/libhfst/src/parsers/htwolcpre3-parser.yy b/libhfst/src/parsers/htwolcpre3-parser.yy
index cb44052..a330e9a 100644
--- a/libhfst/src/parsers/htwolcpre3-parser.yy
+++ b/libhfst/src/parsers/htwolcpre3-parser.yy
@@ -68,6 +68,7 @@ should_colourise()
   void htwolcpre3warn(const char * warning );
   void htwolcpre3message(const std::string &m);
   int htwolcpre3lex();
+  int htwolcpre3lex_destroy(void);
   int htwolcpre3parse();
 
   bool silent_ = false;
@@ -148,6 +149,9 @@ namespace hfst {
     htwolcpre3_input_reader.reset();
     alphabet = Alphabet();
     definition_map = HandyMap<std::string,OtherSymbolTransducer>();
+    OtherSymbolTransducer::define_diacritics(SymbolRange());
+    // Forget what was buffered of an input that failed to parse.
+    htwolcpre3lex_destroy();
   }
 
 }}
-- 
2.43.0


From e7f84e1f1135e2f5258bdef28c73e88964eb70a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:04 +0000
Subject: [PATCH 56/97] fix: a two-level rule whose mixed variables have no
 different values is ignored

---
 libhfst/src/parsers/htwolcpre1-parser.yy             |  5 ++++-
 libhfst/src/parsers/variable_src/RuleVariables.cc    | 12 ++++++++++++
 libhfst/src/parsers/variable_src/RuleVariables.h     |  4 ++++
 .../src/parsers/variable_src/VariableContainerBase.h |  4 ++++
 4 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/parsers/htwolcpre1-parser.yy b/libhfst/src/parsers/htwolcpre1-parser.yy
index 4ebd8b7..a7d0e87 100644
--- a/libhfst/src/parsers/htwolcpre1-parser.yy
+++ b/libhfst/src/parsers/htwolcpre1-parser.yy
@@ -226,7 +226,10 @@ NEGATIVE_RULE_CONTEXTS RULE_VARIABLES
   // different combinations.
   try
     {
-      if (rule_variables.empty())
+      if (rule_variables.no_combinations())
+	{ htwolcpre1warn("The variables of a rule have no values that are all "
+			 "different. The rule is ignored"); }
+      else if (rule_variables.empty())
 	{ *output << rule_symbol_vector.replace_variables(); }
       else
 	{
diff --git a/libhfst/src/parsers/variable_src/RuleVariables.cc b/libhfst/src/parsers/variable_src/RuleVariables.cc
index fcfa8e1..d26c3b3 100644
--- a/libhfst/src/parsers/variable_src/RuleVariables.cc
+++ b/libhfst/src/parsers/variable_src/RuleVariables.cc
@@ -70,6 +70,18 @@ void RuleVariables::clear(void)
   mixed_blocks.clear();
 }
 
+bool RuleVariables::no_combinations(void) const
+{
+  const std::vector<MixedVariableBlock> &blocks = mixed_blocks.get_objects();
+  for (std::vector<MixedVariableBlock>::const_iterator it = blocks.begin();
+       it != blocks.end(); ++it)
+    {
+      if (it->begin() == it->end())
+	{ return true; }
+    }
+  return false;
+}
+
 bool RuleVariables::empty(void) const
 {
   return
diff --git a/libhfst/src/parsers/variable_src/RuleVariables.h b/libhfst/src/parsers/variable_src/RuleVariables.h
index 180ffdd..e9001ee 100644
--- a/libhfst/src/parsers/variable_src/RuleVariables.h
+++ b/libhfst/src/parsers/variable_src/RuleVariables.h
@@ -72,6 +72,10 @@ class RuleVariables
   //! @brief Return true, if no variables have been defines. Return false otherwise.
   bool empty(void) const;
 
+  //! @brief Return true, if no combination of values is possible, i.e. the
+  //! values in some block with matcher <tt>MIXED</tt> can't all be different.
+  bool no_combinations(void) const;
+
   friend class RuleVariablesConstIterator;
 };
 
diff --git a/libhfst/src/parsers/variable_src/VariableContainerBase.h b/libhfst/src/parsers/variable_src/VariableContainerBase.h
index c7ba639..5ca6955 100644
--- a/libhfst/src/parsers/variable_src/VariableContainerBase.h
+++ b/libhfst/src/parsers/variable_src/VariableContainerBase.h
@@ -40,6 +40,10 @@ template <class T> class VariableContainerBase
   void add_object(const T &t)
   { T_vector.push_back(t); }
 
+  //! @brief The objects.
+  const std::vector<T> &get_objects(void) const
+  { return T_vector; }
+
   //! @brief Discard all objects.
   void clear(void)
   { T_vector.clear(); }
-- 
2.43.0


From 46481c67ad25e93895c3fe2d94e891f9dc574499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:49 +0000
Subject: [PATCH 57/97] fix: pairs of two-level diacritics are no pairs of the
 alphabet

---
 libhfst/src/parsers/alphabet_src/Alphabet.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libhfst/src/parsers/alphabet_src/Alphabet.cc b/libhfst/src/parsers/alphabet_src/Alphabet.cc
index e7dff69..dce83ca 100644
--- a/libhfst/src/parsers/alphabet_src/Alphabet.cc
+++ b/libhfst/src/parsers/alphabet_src/Alphabet.cc
@@ -123,7 +123,7 @@ Alphabet::compute(const SymbolPair &pair)
         for (HandySet<SymbolPair>::const_iterator it = alphabet_set.begin();
              it != alphabet_set.end(); ++it)
         {
-            if (is_set_pair(*it))
+            if (is_set_pair(*it) || diacritics.has_element(it->first))
             {
                 continue;
             }
@@ -146,7 +146,7 @@ Alphabet::compute(const SymbolPair &pair)
                  = alphabet_set.begin();
                  jt != alphabet_set.end(); ++jt)
             {
-                if (is_set_pair(*jt))
+                if (is_set_pair(*jt) || diacritics.has_element(jt->first))
                 {
                     continue;
                 }
@@ -171,7 +171,7 @@ Alphabet::compute(const SymbolPair &pair)
                  = alphabet_set.begin();
                  jt != alphabet_set.end(); ++jt)
             {
-                if (is_set_pair(*jt))
+                if (is_set_pair(*jt) || diacritics.has_element(jt->first))
                 {
                     continue;
                 }
-- 
2.43.0


From eb41c486bd1fe9bbff24dd0c4f8c2914ccbcde0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:23 +0000
Subject: [PATCH 58/97] fix: tools report uncaught exceptions and fail instead
 of aborting

---
 tools/src/hfst-commandline.cc | 36 +++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/tools/src/hfst-commandline.cc b/tools/src/hfst-commandline.cc
index dfd0925..e575cb7 100644
--- a/tools/src/hfst-commandline.cc
+++ b/tools/src/hfst-commandline.cc
@@ -29,6 +29,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <exception>
 
 #ifndef _MSC_VER
 #include <unistd.h>
@@ -949,12 +950,47 @@ hfst_realloc(void *ptr, size_t s)
     return rv;
 }
 
+/* An exception nobody handles, e.g. because of damaged input, is an error
+   like any other: report it and fail. */
+static void
+report_uncaught_exception()
+{
+    try
+    {
+        std::exception_ptr e = std::current_exception();
+        if (e)
+        {
+            std::rethrow_exception(e);
+        }
+        fprintf(stderr, "%s: terminated\n", program_name);
+    }
+    catch (const HfstException &e)
+    {
+        fprintf(stderr, "%s: %s\n", program_name, e.what().c_str());
+    }
+    catch (const std::exception &e)
+    {
+        fprintf(stderr, "%s: %s\n", program_name, e.what());
+    }
+    catch (const char *e)
+    {
+        fprintf(stderr, "%s: %s\n", program_name, e);
+    }
+    catch (...)
+    {
+        fprintf(stderr, "%s: unknown exception\n", program_name);
+    }
+    fflush(stderr);
+    _Exit(EXIT_FAILURE);
+}
+
 // customized default printouts for HFST tools
 void
 hfst_set_program_name(const char *argv0, const char *version_vector,
                       const char *wikiname)
 {
     set_program_name(argv0);
+    std::set_terminate(report_uncaught_exception);
     hfst_tool_version = hfst_strdup(version_vector);
     hfst_tool_wikiname = hfst_strdup(wikiname);
 }
-- 
2.43.0


From e13047bb2bce0d29d5b07deefd055182f3184633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:23 +0000
Subject: [PATCH 59/97] fix: hfst-compare closed its output file twice

---
 tools/src/hfst-compare.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tools/src/hfst-compare.cc b/tools/src/hfst-compare.cc
index 5892102..5f28e9c 100644
--- a/tools/src/hfst-compare.cc
+++ b/tools/src/hfst-compare.cc
@@ -252,7 +252,6 @@ compare_streams(HfstInputStream& firststream, HfstInputStream& secondstream)
     }
     firststream.close();
     secondstream.close();
-    fclose(outfile);
     if (mismatches == 0)
       {
         verbose_printf("All " SIZE_T_SPECIFIER " transducers matched\n", transducer_n_first);
-- 
2.43.0


From 433cef3675279b32ab3d9a718a636df552a080ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:23 +0000
Subject: [PATCH 60/97] fix: hfst-fst2txt separates prolog networks with an
 empty line, as hfst-txt2fst reads them

---
 tools/src/hfst-fst2txt.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/src/hfst-fst2txt.cc b/tools/src/hfst-fst2txt.cc
index 2608c3f..972fa30 100644
--- a/tools/src/hfst-fst2txt.cc
+++ b/tools/src/hfst-fst2txt.cc
@@ -219,8 +219,9 @@ process_stream(HfstInputStream& instream, FILE* outf)
                          transducer_n);
         }
 
+        // networks in prolog format are separated by an empty line
         if(transducer_n > 1)
-            fprintf(outf, "--\n");
+            fprintf(outf, format == PROLOG_TEXT ? "\n" : "--\n");
 
         bool printw; // whether weights are printed
         hfst::ImplementationType type = t->get_type();
-- 
2.43.0


From 9234133ea61fe35ad4d701cda3310adfe694150e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:23 +0000
Subject: [PATCH 61/97] fix: hfst-optimized-lookup read past the epsilon symbol
 in its tokenizer

---
 tools/src/hfst-optimized-lookup.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/src/hfst-optimized-lookup.cc b/tools/src/hfst-optimized-lookup.cc
index 65e3171..73148bd 100644
--- a/tools/src/hfst-optimized-lookup.cc
+++ b/tools/src/hfst-optimized-lookup.cc
@@ -518,6 +518,10 @@ Encoder::read_input_symbols(KeyTable *kt)
         assert(kt->find(k) != kt->end());
 #endif
         const char *p = kt->operator[](k);
+        if (*p == '\0')
+        {
+            continue; // epsilon
+        }
         if ((strlen(p) == 1)
             && (unsigned char)(*p) <= 127
             // we have a single char ascii symbol
-- 
2.43.0


From 349e890f27d01a51493ad7019715d0dfbcf5bcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:23 +0000
Subject: [PATCH 62/97] fix: hfst-insert-freely handles every transducer of the
 stream and single symbols

---
 tools/src/hfst-insert-freely.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/tools/src/hfst-insert-freely.cc b/tools/src/hfst-insert-freely.cc
index 6bb2cb0..bf241c8 100644
--- a/tools/src/hfst-insert-freely.cc
+++ b/tools/src/hfst-insert-freely.cc
@@ -194,6 +194,10 @@ parse_options(int argc, char** argv)
                 label = hfst_strdup(hfst::internal_epsilon.c_str());
               }
             symbol_pair = label_to_stringpair(label);
+            if (symbol_pair == NULL)
+              {
+                symbol_pair = new StringPair(label, label); // a single symbol
+              }
             if (strlen(label) == 0)
               {
                 error(EXIT_FAILURE, 0, "argument of source label option is "
@@ -214,6 +218,10 @@ parse_options(int argc, char** argv)
 
 #include "inc/check-params-common.h"
 #include "inc/check-params-unary.h"
+    if (symbol_pair == NULL)
+      {
+        error(EXIT_FAILURE, 0, "must give the symbol to insert with -a");
+      }
     return EXIT_CONTINUE;
 }
 
@@ -229,8 +237,6 @@ process_stream(HfstInputStream& instream, HfstOutputStream& outstream)
         transducer_n++;
         HfstTransducer trans(instream);
         char* inputname = hfst_get_name(trans, inputfilename);
-        if (transducer_n==1)
-        {
 //            If harmonize is true, then identity and unknown symbols in the
 //    transducer will be exapanded byt the symbols in symbol
 //    pair. Otherwise they aren't.
@@ -239,10 +245,9 @@ process_stream(HfstInputStream& instream, HfstOutputStream& outstream)
 
 // StringPair("a", "a")
 
-          trans.insert_freely(*symbol_pair, harmonise_flags);
-          hfst_set_name(trans, trans, "insert-freely");
-          hfst_set_formula(trans, trans, "Id");
-        }
+        trans.insert_freely(*symbol_pair, harmonise_flags);
+        hfst_set_name(trans, trans, "insert-freely");
+        hfst_set_formula(trans, trans, "Id");
         outstream << trans;
         free(inputname);
     }
-- 
2.43.0


From e53c01868deae20701430906f87cdce93785af71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:23 +0000
Subject: [PATCH 63/97] fix: hfst-repeat accepts infinity as upper bound with a
 lower bound

---
 tools/src/hfst-repeat.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/hfst-repeat.cc b/tools/src/hfst-repeat.cc
index 78a6711..661391d 100644
--- a/tools/src/hfst-repeat.cc
+++ b/tools/src/hfst-repeat.cc
@@ -125,7 +125,7 @@ parse_options(int argc, char** argv)
 
 #include "inc/check-params-common.h"
 #include "inc/check-params-unary.h"
-    if (at_least > at_most)
+    if (!from_infinity && !to_infinity && at_least > at_most)
       {
         error(EXIT_FAILURE, 0, "Cannot repeat from %lu to %lu times\n",
               at_least, at_most);
-- 
2.43.0


From f72d8695acd9992766b8b9e8d3864c0ebacc9668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:23 +0000
Subject: [PATCH 64/97] fix: hfst-fst2strings length, prefix and exclusion
 filters do not see epsilons

---
 tools/src/hfst-fst2strings.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tools/src/hfst-fst2strings.cc b/tools/src/hfst-fst2strings.cc
index 0a4f668..a1cd41d 100644
--- a/tools/src/hfst-fst2strings.cc
+++ b/tools/src/hfst-fst2strings.cc
@@ -322,8 +322,15 @@ class Callback : public hfst::ExtractStringsCb
         for (StringPairVector::const_iterator it = path.second.begin();
              it != path.second.end(); it++)
         {
-            istring.append(it->first);
-            ostring.append(it->second);
+            // epsilons are not part of the strings
+            if (not hfst::is_epsilon(it->first))
+            {
+                istring.append(it->first);
+            }
+            if (not hfst::is_epsilon(it->second))
+            {
+                ostring.append(it->second);
+            }
         }
         float weight = path.first;
 
-- 
2.43.0


From 4bebd3e196b3384cd2f0e544ed876fa1ebe82058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:23 +0000
Subject: [PATCH 65/97] fix: hfst-substitute -F applies to every transducer of
 the stream

---
 tools/src/hfst-substitute.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/src/hfst-substitute.cc b/tools/src/hfst-substitute.cc
index f065419..d95a653 100644
--- a/tools/src/hfst-substitute.cc
+++ b/tools/src/hfst-substitute.cc
@@ -663,6 +663,7 @@ process_stream(HfstInputStream &instream)
             size_t line_n = 0;
             verbose_printf("reading substitutions from %s...\n",
                            from_file_name);
+            rewind(from_file); // every transducer gets all substitutions
             while (hfst_getline(&line, &len, from_file) != -1)
             {
                 line_n++;
-- 
2.43.0


From 149571b4ecbda59a31f047ecb85772bf91af5414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:23 +0000
Subject: [PATCH 66/97] fix: hfst-minimize dereferenced a null stream when the
 input format is not available

---
 tools/src/hfst-minimize.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/hfst-minimize.cc b/tools/src/hfst-minimize.cc
index 7b2bbb2..26ab033 100644
--- a/tools/src/hfst-minimize.cc
+++ b/tools/src/hfst-minimize.cc
@@ -209,7 +209,7 @@ main(int argc, char **argv)
     {
         error(EXIT_FAILURE, 0,
               "file %s is in %s format which is not available", inputfilename,
-              hfst::implementation_type_to_format(instream->get_type()));
+              hfst::implementation_type_to_format(e.get_type()));
         return EXIT_FAILURE;
     }
     catch (const HfstException &e)
-- 
2.43.0


From 0c20b92f8c77afd917ba5220967bbea3bc60b4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:23 +0000
Subject: [PATCH 67/97] fix: hfst-compose composes a single first transducer
 with each of the second stream

---
 tools/src/hfst-compose.cc | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/tools/src/hfst-compose.cc b/tools/src/hfst-compose.cc
index f929085..2bf30dd 100644
--- a/tools/src/hfst-compose.cc
+++ b/tools/src/hfst-compose.cc
@@ -265,7 +265,9 @@ compose_streams(HfstInputStream &firststream, HfstInputStream &secondstream)
                            firstname, secondname, transducer_n_first);
         }
 
-        if (first->has_flag_diacritics() or second->has_flag_diacritics())
+        // a single first transducer is needed again for the next second one
+        HfstTransducer result(*first);
+        if (result.has_flag_diacritics() or second->has_flag_diacritics())
         {
             if (not harmonize_flags)
             {
@@ -281,14 +283,14 @@ compose_streams(HfstInputStream &firststream, HfstInputStream &secondstream)
             {
                 try
                 {
-                    first->harmonize_flag_diacritics(*second);
+                    result.harmonize_flag_diacritics(*second);
                 }
                 catch (TransducerTypeMismatchException ttme)
                 {
                     if (allow_transducer_conversion)
                     {
-                        convert_transducers(*first, *second);
-                        first->harmonize_flag_diacritics(*second);
+                        convert_transducers(result, *second);
+                        result.harmonize_flag_diacritics(*second);
                     }
                     else
                     {
@@ -308,14 +310,14 @@ compose_streams(HfstInputStream &firststream, HfstInputStream &secondstream)
 
         try
         {
-            first->compose(*second, harmonize);
+            result.compose(*second, harmonize);
         }
         catch (TransducerTypeMismatchException ttme)
         {
             if (allow_transducer_conversion)
             {
-                convert_transducers(*first, *second);
-                first->compose(*second, harmonize);
+                convert_transducers(result, *second);
+                result.compose(*second, harmonize);
             }
             else
             {
@@ -330,10 +332,10 @@ compose_streams(HfstInputStream &firststream, HfstInputStream &secondstream)
             }
         }
 
-        hfst_set_name(*first, *first, *second, "compose");
-        hfst_set_formula(*first, *first, *second, "∘");
+        hfst_set_name(result, result, *second, "compose");
+        hfst_set_formula(result, result, *second, "∘");
 
-        outstream << *first;
+        outstream << result;
 
         continueReading
             = (firststream.is_good() && secondstream.is_good())
-- 
2.43.0


From 5e8466688808ccbd2600843bb095d8bde0c894b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:51 +0000
Subject: [PATCH 68/97] fix: hfst-txt2fst -j fails on malformed text like
 hfst-txt2fst does

---
 tools/src/hfst-txt2fst.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/src/hfst-txt2fst.cc b/tools/src/hfst-txt2fst.cc
index accc60f..96d0fc3 100644
--- a/tools/src/hfst-txt2fst.cc
+++ b/tools/src/hfst-txt2fst.cc
@@ -327,7 +327,10 @@ process_stream(HfstOutputStream &outstream)
             }
             catch (NotValidAttFormatException e)
             {
-                printf("Error reading transducer: not valid AT&T format.\n");
+                hfst_error(EXIT_FAILURE, 0,
+                           "Error reading transducer: not valid AT&T "
+                           "format.\n");
+                return EXIT_FAILURE;
             }
             HfstTransducer joined(output_format);
             std::vector<HfstTransducer>::iterator it;
-- 
2.43.0


From ffe55bdac1b6f42cd4e08dd0b2da557919267826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:51 +0000
Subject: [PATCH 69/97] fix: labels starting with an escaped colon made
 hfst-substitute and hfst-insert-freely loop

---
 tools/src/hfst-insert-freely.cc | 4 ++++
 tools/src/hfst-substitute.cc    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/tools/src/hfst-insert-freely.cc b/tools/src/hfst-insert-freely.cc
index bf241c8..ea3ba52 100644
--- a/tools/src/hfst-insert-freely.cc
+++ b/tools/src/hfst-insert-freely.cc
@@ -93,6 +93,10 @@ label_to_stringpair(const char* label)
                     colon = strchr(colon + 1, ':');
                   }
               }
+              else
+                {
+                  colon = strchr(colon + 1, ':'); // an escaped colon
+                }
           }
         else
           {
diff --git a/tools/src/hfst-substitute.cc b/tools/src/hfst-substitute.cc
index d95a653..7afadbd 100644
--- a/tools/src/hfst-substitute.cc
+++ b/tools/src/hfst-substitute.cc
@@ -113,6 +113,10 @@ label_to_stringpair(const char *label)
                     colon = strchr(colon + 1, ':');
                 }
             }
+            else
+            {
+                colon = strchr(colon + 1, ':'); // an escaped colon
+            }
         }
         else
         {
-- 
2.43.0


From ee40cd9f73b1591e06dbb94ac5c7594a9299a2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:26 +0000
Subject: [PATCH 70/97] fix: a pmatch left context stopped at the beginning of
 the input instead of failing there

---
 .../implementations/optimized-lookup/pmatch.cc | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/libhfst/src/implementations/optimized-lookup/pmatch.cc b/libhfst/src/implementations/optimized-lookup/pmatch.cc
index 31a28c9..3117370 100644
--- a/libhfst/src/implementations/optimized-lookup/pmatch.cc
+++ b/libhfst/src/implementations/optimized-lookup/pmatch.cc
@@ -2354,18 +2354,12 @@ PmatchTransducer::take_transitions(SymbolNumber input, unsigned int input_pos,
                 // Checking context so don't touch output
                 if (local_stack.top().max_context_length_remaining > 0)
                 {
-                    if ((local_stack.top().tape_step < 0) && (input_pos == 0))
-                    {
-                        // FIXME: prevents segfault but
-                        get_analyses(input_pos, tape_pos, target); // awkward
-                    }
-                    else
-                    {
-                        local_stack.top().max_context_length_remaining -= 1;
-                        get_analyses(input_pos + local_stack.top().tape_step,
-                                     tape_pos, target);
-                        local_stack.top().max_context_length_remaining += 1;
-                    }
+                    // Stepping left of the beginning of the input underflows
+                    // the position, which has_queued_input() recognizes
+                    local_stack.top().max_context_length_remaining -= 1;
+                    get_analyses(input_pos + local_stack.top().tape_step,
+                                 tape_pos, target);
+                    local_stack.top().max_context_length_remaining += 1;
                 }
             }
             local_stack.top().default_symbol_trap = false;
-- 
2.43.0


From a4aa040ff3425f7dda9ffc5f9cd1d8d10926606c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:50 +0000
Subject: [PATCH 71/97] fix: locations of pmatch matches through unknown arcs
 told the unknown symbol as input

---
 libhfst/src/implementations/optimized-lookup/pmatch.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/implementations/optimized-lookup/pmatch.cc b/libhfst/src/implementations/optimized-lookup/pmatch.cc
index 3117370..bef3670 100644
--- a/libhfst/src/implementations/optimized-lookup/pmatch.cc
+++ b/libhfst/src/implementations/optimized-lookup/pmatch.cc
@@ -2330,13 +2330,18 @@ PmatchTransducer::take_transitions(SymbolNumber input, unsigned int input_pos,
             container->increment_weight(transition_table[i].get_weight());
             if (!checking_context())
             {
+                // if we got here via a meta-arc, look back in the
+                // input tape to find the symbol we want to write
                 if (alphabet.is_meta_arc(this_output)
                     || (alphabet.list2symbols[this_output]
                         != NO_SYMBOL_NUMBER))
                 {
-                    // we got here via a meta-arc, so look back in the
-                    // input tape to find the symbol we want to write
                     this_output = container->input[input_pos];
+                }
+                if (alphabet.is_meta_arc(this_input)
+                    || (alphabet.list2symbols[this_input]
+                        != NO_SYMBOL_NUMBER))
+                {
                     this_input = container->input[input_pos];
                 }
                 if (this_input == alphabet.get_special(Pmatch_passthrough))
-- 
2.43.0


From 3bada619dc785a78341c3273dfbab2b03b7d50ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:50 +0000
Subject: [PATCH 72/97] fix: a pending pmatch negative context leaked into the
 states explored before it was taken

---
 libhfst/src/implementations/optimized-lookup/pmatch.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/implementations/optimized-lookup/pmatch.cc b/libhfst/src/implementations/optimized-lookup/pmatch.cc
index bef3670..8dabcca 100644
--- a/libhfst/src/implementations/optimized-lookup/pmatch.cc
+++ b/libhfst/src/implementations/optimized-lookup/pmatch.cc
@@ -2411,10 +2411,14 @@ PmatchTransducer::get_analyses(unsigned int input_pos, unsigned int tape_pos,
         return;
     }
     local_stack.top().default_symbol_trap = true;
+    // A passthrough pending in a state that we came from is not ours to take
+    bool outer_pending_passthrough = local_stack.top().pending_passthrough;
+    local_stack.top().pending_passthrough = false;
     take_epsilons(input_pos, tape_pos, i + 1);
-    if (local_stack.top().pending_passthrough == true)
+    bool pending_passthrough = local_stack.top().pending_passthrough;
+    local_stack.top().pending_passthrough = outer_pending_passthrough;
+    if (pending_passthrough)
     {
-        local_stack.top().pending_passthrough = false;
         // A negative context failed (successfully)
         take_transitions(alphabet.get_special(Pmatch_passthrough), input_pos,
                          tape_pos, i + 1);
-- 
2.43.0


From f2cc69653c41418bb9695194857662491697befb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:50 +0000
Subject: [PATCH 73/97] fix: members of a pmatch symbol list that occur nowhere
 else were not matched by identity and unknown arcs

---
 libhfst/src/implementations/optimized-lookup/pmatch.cc | 10 ++++++----
 libhfst/src/implementations/optimized-lookup/pmatch.h  |  2 ++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/libhfst/src/implementations/optimized-lookup/pmatch.cc b/libhfst/src/implementations/optimized-lookup/pmatch.cc
index 8dabcca..e3bfeb9 100644
--- a/libhfst/src/implementations/optimized-lookup/pmatch.cc
+++ b/libhfst/src/implementations/optimized-lookup/pmatch.cc
@@ -74,6 +74,8 @@ PmatchAlphabet::PmatchAlphabet(std::istream &inputstream,
                       NO_SYMBOL_NUMBER), // SpecialSymbols enum
       container(cont)
 {
+    // Symbols that only occur in symbol lists will be added after these
+    arc_symbol_count = orig_symbol_count;
     symbol2lists = SymbolNumberVector(orig_symbol_count, NO_SYMBOL_NUMBER);
     list2symbols = SymbolNumberVector(orig_symbol_count, NO_SYMBOL_NUMBER);
     capture2captured = SymbolNumberVector(orig_symbol_count, NO_SYMBOL_NUMBER);
@@ -137,6 +139,8 @@ PmatchAlphabet::PmatchAlphabet(TransducerAlphabet const &a,
       special_symbols(SPECIALSYMBOL_NR_ITEMS, NO_SYMBOL_NUMBER),
       container(cont)
 {
+    // Symbols that only occur in symbol lists will be added after these
+    arc_symbol_count = orig_symbol_count;
     symbol2lists = SymbolNumberVector(orig_symbol_count, NO_SYMBOL_NUMBER);
     list2symbols = SymbolNumberVector(orig_symbol_count, NO_SYMBOL_NUMBER);
     capture2captured = SymbolNumberVector(orig_symbol_count, NO_SYMBOL_NUMBER);
@@ -1649,8 +1653,7 @@ PmatchTransducer::PmatchTransducer(std::istream &is,
                                    PmatchContainer *cont)
     : name(_name), alphabet(alpha), container(cont)
 {
-    orig_symbol_count
-        = hfst::size_t_to_uint(alphabet.get_symbol_table().size());
+    orig_symbol_count = alphabet.arc_symbol_count;
     // initialize the stack for local variables
     LocalVariables local_variables;
     local_variables.flag_state = alphabet.get_fd_table();
@@ -1696,8 +1699,7 @@ PmatchTransducer::PmatchTransducer(std::vector<TransitionW> transition_vector,
     : name(_name), transition_table(transition_vector),
       index_table(index_vector), alphabet(alpha), container(cont)
 {
-    orig_symbol_count
-        = hfst::size_t_to_uint(alphabet.get_symbol_table().size());
+    orig_symbol_count = alphabet.arc_symbol_count;
     // initialize the stack for local variables
     LocalVariables local_variables;
     local_variables.flag_state = alphabet.get_fd_table();
diff --git a/libhfst/src/implementations/optimized-lookup/pmatch.h b/libhfst/src/implementations/optimized-lookup/pmatch.h
index 879b73f..d3ed5f1 100644
--- a/libhfst/src/implementations/optimized-lookup/pmatch.h
+++ b/libhfst/src/implementations/optimized-lookup/pmatch.h
@@ -69,6 +69,8 @@ namespace hfst_ol {
         SymbolNumberVector symbol2lists;
 // For each a symbol, either NO_SYMBOL for "this is not a list" or an index into symbol_list_members
         SymbolNumberVector list2symbols;
+        // the number of symbols that the arcs of the archive were built with
+        SymbolNumber arc_symbol_count = 0;
         // For each entry referring to entries in the symbol table, indicate
         // "this symbol is an exclusionary list", ie. symbols not in it
         // will match
-- 
2.43.0


From 074c3087355034e6c771bdb26699914d9f96149d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:51 +0000
Subject: [PATCH 74/97] fix: pmatch lookups read past the end of the index
 table

---
 libhfst/src/implementations/optimized-lookup/pmatch.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/implementations/optimized-lookup/pmatch.h b/libhfst/src/implementations/optimized-lookup/pmatch.h
index d3ed5f1..27a7c70 100644
--- a/libhfst/src/implementations/optimized-lookup/pmatch.h
+++ b/libhfst/src/implementations/optimized-lookup/pmatch.h
@@ -397,7 +397,8 @@ namespace hfst_ol {
             if (indexes_transition_table(i)) {
                 return i - TRANSITION_TARGET_TABLE_START;
             } else {
-                if (index_table[i + input].get_input_symbol() == input) {
+                if (i + input < index_table.size() &&
+                    index_table[i + input].get_input_symbol() == input) {
                     return index_table[i + input].get_target() - TRANSITION_TARGET_TABLE_START;
                 } else {
                     return TRANSITION_TARGET_TABLE_START;
-- 
2.43.0


From c0ada28788171a19593ea90a966b35376a72ded7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:51 +0000
Subject: [PATCH 75/97] fix: harmonized optimized-lookup transducers didn't
 count their input symbols, their arcs got lost in conversions

---
 libhfst/src/implementations/ConvertOlTransducer.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/implementations/ConvertOlTransducer.cc b/libhfst/src/implementations/ConvertOlTransducer.cc
index 00bd4f7..034290c 100644
--- a/libhfst/src/implementations/ConvertOlTransducer.cc
+++ b/libhfst/src/implementations/ConvertOlTransducer.cc
@@ -292,7 +292,13 @@ void get_states_and_symbols(
                 string_symbol_map[tr_it->get_input_symbol()],
                 string_symbol_map[tr_it->get_output_symbol()],
                 tr_it->get_weight());
-            //SymbolNumber input_sym = string_symbol_map[tr_it->get_input_symbol()];
+            SymbolNumber input_sym
+                = string_symbol_map[tr_it->get_input_symbol()];
+            if (flag_symbols.count(input_sym) == 0 &&
+                input_sym >= seen_input_symbols) {
+                // a harmonizer needn't use this symbol as an input symbol
+                seen_input_symbols = input_sym + 1;
+            }
             state_placeholders[state_number].add_transition(trans);
         }
         ++state_number;
-- 
2.43.0


From d360efa68718a993ba61333737659d33223ab6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:51 +0000
Subject: [PATCH 76/97] fix: replacing list symbols in pmatch disjunctions took
 list members away from identities

---
 libhfst/src/parsers/pmatch_utils.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libhfst/src/parsers/pmatch_utils.cc b/libhfst/src/parsers/pmatch_utils.cc
index 5d53051..c6433eb 100644
--- a/libhfst/src/parsers/pmatch_utils.cc
+++ b/libhfst/src/parsers/pmatch_utils.cc
@@ -3769,6 +3769,10 @@ fix_list_overlap(HfstTransducer *lhs, HfstTransducer *rhs,
                       << " and abovementioned disjunction " << std::endl;
         }
         StringPair oldsym = StringPair(sym, sym);
+        // The identities and unknowns of both sides stand for the symbols of
+        // the list as well, let them be expanded before the symbols enter the
+        // alphabets
+        lhs->harmonize(*rhs);
         lhs->substitute(oldsym, newpairs);
         rhs->substitute(oldsym, newpairs);
     }
-- 
2.43.0


From aad5ccf45466015c032099c6391508e5e3b146bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:51 +0000
Subject: [PATCH 77/97] fix: symbols of pmatch separators were lost from the
 other networks of the archive

---
 libhfst/src/parsers/pmatch_utils.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libhfst/src/parsers/pmatch_utils.cc b/libhfst/src/parsers/pmatch_utils.cc
index c6433eb..aecfaad 100644
--- a/libhfst/src/parsers/pmatch_utils.cc
+++ b/libhfst/src/parsers/pmatch_utils.cc
@@ -1787,6 +1787,17 @@ compile(const string &pmatch, map<string, HfstTransducer *> &defs,
             delete retval["TOP"];
             retval["TOP"] = add_pmatch_delimiters(top_with_boundaries);
             (retval["TOP"])->minimize();
+            // The separators may have brought new symbols
+            for (std::map<std::string, HfstTransducer *>::iterator it
+                 = retval.begin();
+                 it != retval.end(); ++it)
+            {
+                if (it->first != "TOP")
+                {
+                    it->second->harmonize(*(retval["TOP"]));
+                    it->second->minimize();
+                }
+            }
             if (hfst::pmatch::verbose)
             {
                 double duration
-- 
2.43.0


From 5a21cd32f0288b6695b24264074e5803c0920eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:51 +0000
Subject: [PATCH 78/97] fix: hfst-pmatch printed weights without -w and none
 with it, --weight-cutoff set the time cutoff

---
 tools/src/hfst-pmatch.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/src/hfst-pmatch.cc b/tools/src/hfst-pmatch.cc
index bb21da7..9ffcb27 100644
--- a/tools/src/hfst-pmatch.cc
+++ b/tools/src/hfst-pmatch.cc
@@ -180,13 +180,13 @@ match_and_print(hfst_ol::PmatchContainer &container, std::ostream &outstream,
 #ifndef _MSC_VER
                 outstream << it->at(0).start << "|" << it->at(0).length << "|"
                           << it->at(0).output << "|" << it->at(0).tag;
-                if (print_weights)
+                if (print_weights == on)
                 {
                     outstream << "|" << it->at(0).weight;
                 }
                 outstream << std::endl;
 #else
-                if (print_weights)
+                if (print_weights == on)
                 {
                     hfst::hfst_fprintf_console(
                         stdout, "%i|%i|%s|%s|%f\n", it->at(0).start,
@@ -394,6 +394,7 @@ parse_options(int argc, char **argv)
                 std::cerr << "Invalid argument for --weight-cutoff\n";
                 return EXIT_FAILURE;
             }
+            break;
         case 't':
             time_cutoff = atof(optarg);
             if (time_cutoff < 0.0)
-- 
2.43.0


From 1f1f9ea9e5ac16fd40e7ba11e2673f060f2e05fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:51 +0000
Subject: [PATCH 79/97] fix: the initial symbol filter of pmatch archives took
 symbols of contexts for ones that start a match

---
 libhfst/src/parsers/pmatch_utils.cc | 333 ++++++----------------------
 libhfst/src/parsers/pmatch_utils.h  |  18 +-
 2 files changed, 74 insertions(+), 277 deletions(-)

diff --git a/libhfst/src/parsers/pmatch_utils.cc b/libhfst/src/parsers/pmatch_utils.cc
index aecfaad..45b5bb9 100644
--- a/libhfst/src/parsers/pmatch_utils.cc
+++ b/libhfst/src/parsers/pmatch_utils.cc
@@ -1685,11 +1685,12 @@ compile(const string &pmatch, map<string, HfstTransducer *> &defs,
     }
 
     StringSet allowed_initial_symbols;
-    StringSet disallowed_initial_symbols;
-    definitions["TOP"]->collect_initial_symbols_into(
-        allowed_initial_symbols, disallowed_initial_symbols);
+    if (definitions.count("TOP") != 0)
+    {
+        definitions["TOP"]->collect_initial_symbols_into(
+            allowed_initial_symbols);
+    }
     std::string initial_symbols_list;
-    std::string disallowed_initial_symbols_list;
     // Use this to bail out if there's something suspicious in the final lists
     bool initial_symbols_ok = true;
     for (StringSet::iterator it = allowed_initial_symbols.begin();
@@ -1707,21 +1708,6 @@ compile(const string &pmatch, map<string, HfstTransducer *> &defs,
         }
         initial_symbols_list.append(*it);
     }
-    for (StringSet::iterator it = disallowed_initial_symbols.begin();
-         it != disallowed_initial_symbols.end(); ++it)
-    {
-        if (is_special(*it))
-        {
-            if (hfst::pmatch::verbose)
-            {
-                std::cerr
-                    << "Not setting initial symbol list due to special symbol "
-                    << *it << std::endl;
-            }
-            initial_symbols_ok = false;
-        }
-        disallowed_initial_symbols_list.append(*it);
-    }
     if (allowed_initial_symbols.size() > 200)
     {
         if (hfst::pmatch::verbose)
@@ -1732,25 +1718,10 @@ compile(const string &pmatch, map<string, HfstTransducer *> &defs,
         }
         initial_symbols_ok = false;
     }
-    if (disallowed_initial_symbols.size() > 200)
-    {
-        if (hfst::pmatch::verbose)
-        {
-            std::cerr
-                << "Not setting initial symbol list due to excess length: "
-                << disallowed_initial_symbols.size() << std::endl;
-        }
-        initial_symbols_ok = false;
-    }
     if (initial_symbols_ok && initial_symbols_list.size() != 0)
     {
         variables["initial-symbols"] = initial_symbols_list;
     }
-    if (initial_symbols_ok && disallowed_initial_symbols_list.size() != 0)
-    {
-        variables["disallowed-initial-symbols"]
-            = disallowed_initial_symbols_list;
-    }
     if (variables["need-separators"] == "on")
     {
         HfstTransducer not_whitespace(hfst::internal_identity, format);
@@ -2597,18 +2568,16 @@ PmatchObject::expand_Ins_arcs(StringSet &ss)
                     expansions_done.insert(*it);
                     if (definitions.count(ins_name) != 0)
                     {
-                        StringSet allowed, disallowed;
+                        StringSet allowed;
                         if (def_insed_expressions.count(ins_name) != 0)
                         {
                             def_insed_expressions[ins_name]
-                                ->collect_initial_symbols_into(allowed,
-                                                               disallowed);
+                                ->collect_initial_symbols_into(allowed);
                         }
                         else
                         {
                             definitions[ins_name]
-                                ->collect_initial_symbols_into(allowed,
-                                                               disallowed);
+                                ->collect_initial_symbols_into(allowed);
                         }
                         if (allowed.size() != 0)
                         {
@@ -2635,247 +2604,91 @@ PmatchObject::expand_Ins_arcs(StringSet &ss)
 StringSet
 PmatchObject::get_real_initial_symbols(void)
 {
-    if (this->is_left_concatenation_with_context())
-    {
-        return this->get_real_initial_symbols_from_right();
-    }
-    if (this->is_delimiter())
-    {
-        return this->get_initial_symbols_from_unary_root();
-    }
     HfstTransducer *tmp = this->evaluate();
-    StringSet retval(tmp->get_initial_input_symbols());
+    HfstBasicTransducer fsm(*tmp);
     delete tmp;
-    return retval;
-}
-
-StringSet
-PmatchObject::get_real_initial_symbols_from_right(void)
-{
-    return StringSet();
-}
-
-StringSet
-PmatchBinaryOperation::get_real_initial_symbols_from_right(void)
-{
-    return right->get_real_initial_symbols();
-}
-
-StringSet
-PmatchObject::get_initial_symbols_from_unary_root(void)
-{
-    return StringSet();
-}
-
-StringSet
-PmatchUnaryOperation::get_initial_symbols_from_unary_root(void)
-{
-    return root->get_real_initial_symbols();
-}
-
-bool
-PmatchObject::is_left_concatenation_with_context(void)
-{
-    return false;
-}
-
-bool
-PmatchBinaryOperation::is_left_concatenation_with_context(void)
-{
-    return op == Concatenate && left->is_context();
-}
-
-bool
-PmatchObject::is_context(void)
-{
-    return false;
-}
-
-bool
-PmatchObject::is_delimiter(void)
-{
-    return false;
-}
-
-bool
-PmatchUnaryOperation::is_context(void)
-{
-    return op == LC || op == NLC || op == RC || op == NRC;
-}
-
-bool
-PmatchUnaryOperation::is_delimiter(void)
-{
-    return op == AddDelimiters;
-}
-
-StringSet
-PmatchObject::get_initial_RC_initial_symbols(void)
-{
-    return StringSet();
-}
-
-StringSet
-PmatchObject::get_initial_NRC_initial_symbols(void)
-{
-    return StringSet();
-}
-
-StringSet
-PmatchBinaryOperation::get_initial_RC_initial_symbols(void)
-{
     StringSet retval;
-    if (op == Concatenate)
-    {
-        StringSet left_ss = left->get_initial_RC_initial_symbols();
-        StringSet right_ss;
-        if (right->is_context() || right->is_delimiter())
-        {
-            right_ss = right->get_initial_NRC_initial_symbols();
-        }
-        retval.insert(left_ss.begin(), left_ss.end());
-        retval.insert(right_ss.begin(), right_ss.end());
-        return retval;
-    }
-    return retval;
-}
-
-StringSet
-PmatchBinaryOperation::get_initial_NRC_initial_symbols(void)
-{
-    StringSet retval;
-    if (op == Concatenate)
-    {
-        StringSet left_ss = left->get_initial_NRC_initial_symbols();
-        StringSet right_ss;
-        if (right->is_context() || right->is_delimiter())
-        {
-            right_ss = right->get_initial_NRC_initial_symbols();
+    // Walk the states that can be reached without consuming input, keeping
+    // track of whether we are inside a context: contexts are checked against
+    // the surroundings of the match or inspect it without consuming it, so
+    // the symbols in them don't begin a match.
+    typedef std::pair<hfst::implementations::HfstState, bool>
+        Configuration;
+    std::set<Configuration> seen;
+    std::vector<Configuration> agenda(1, Configuration(0, false));
+    seen.insert(agenda.back());
+    while (!agenda.empty())
+    {
+        Configuration current = agenda.back();
+        agenda.pop_back();
+        if (!current.second && fsm.is_final_state(current.first))
+        {
+            // Anything can follow
+            retval.insert(hfst::internal_identity);
+        }
+        const hfst::implementations::HfstBasicTransitions &transitions
+            = fsm.transitions(current.first);
+        for (hfst::implementations::HfstBasicTransitions::const_iterator it
+             = transitions.begin();
+             it != transitions.end(); ++it)
+        {
+            Configuration next(it->get_target_state(), current.second);
+            const std::string isymbol = it->get_input_symbol();
+            const std::string osymbol = it->get_output_symbol();
+            if (!current.second)
+            {
+                if (osymbol == LC_ENTRY_SYMBOL || osymbol == RC_ENTRY_SYMBOL
+                    || osymbol == NLC_ENTRY_SYMBOL
+                    || osymbol == NRC_ENTRY_SYMBOL)
+                {
+                    next.second = true;
+                }
+                else if (osymbol.find("@PMATCH_CAPTURED_") == 0)
+                {
+                    // We can't know what has been captured
+                    retval.insert(hfst::internal_identity);
+                }
+                else if (isymbol != hfst::internal_epsilon
+                         && isymbol != PASSTHROUGH_SYMBOL
+                         && isymbol.find("@PMATCH_GUARD_") != 0
+                         && !FdOperation::is_diacritic(isymbol))
+                {
+                    retval.insert(isymbol);
+                    continue;
+                }
+            }
+            else if (osymbol == LC_EXIT_SYMBOL || osymbol == RC_EXIT_SYMBOL
+                     || osymbol == NLC_EXIT_SYMBOL
+                     || osymbol == NRC_EXIT_SYMBOL)
+            {
+                next.second = false;
+            }
+            if (seen.insert(next).second)
+            {
+                agenda.push_back(next);
+            }
         }
-        retval.insert(left_ss.begin(), left_ss.end());
-        retval.insert(right_ss.begin(), right_ss.end());
-        return retval;
     }
     return retval;
 }
 
-StringSet
-PmatchUnaryOperation::get_initial_RC_initial_symbols(void)
-{
-    if (op == RC)
-    {
-        HfstTransducer *tmp = this->root->evaluate();
-        StringSet retval(tmp->get_initial_input_symbols());
-        delete tmp;
-        return retval;
-    }
-    if (op == AddDelimiters)
-    {
-        return root->get_initial_RC_initial_symbols();
-    }
-    return StringSet();
-}
-
-StringSet
-PmatchUnaryOperation::get_initial_NRC_initial_symbols(void)
-{
-    if (op == NRC)
-    {
-        HfstTransducer *tmp = this->root->evaluate();
-        StringSet retval(tmp->get_initial_input_symbols());
-        delete tmp;
-        return retval;
-    }
-    if (op == AddDelimiters)
-    {
-        return root->get_initial_NRC_initial_symbols();
-    }
-    return StringSet();
-}
-
 void
-PmatchObject::collect_initial_symbols_into(
-    StringSet &allowed_initial_symbols, StringSet &disallowed_initial_symbols)
+PmatchObject::collect_initial_symbols_into(StringSet &allowed_initial_symbols)
 {
-    // One or neither of allowed_initial_symbols and disallowed_initial_symbols
-    // will have some symbols inserted to it.
-
     StringSet allowed = this->get_real_initial_symbols();
-    StringSet required = this->get_initial_RC_initial_symbols();
-    StringSet disallowed = this->get_initial_NRC_initial_symbols();
 
     // The first input symbols collected in this way may include:
     // - insertion arcs
     // - unknown, identity, default
-    // - symbols after flag diacritics
-    // - symbols from contexts
     expand_Ins_arcs(allowed);
-    expand_Ins_arcs(required);
-    expand_Ins_arcs(disallowed);
 
-    if (allowed.size() == 0)
+    if (allowed.size() == 0 || string_set_has_meta_arc(allowed))
     {
-        // Probably something went wrong, we'll just not make no judgement
+        // Probably something went wrong or anything goes, we'll just make no
+        // judgement
         return;
     }
-
-    if (string_set_has_meta_arc(allowed))
-    {
-        if (required.size() != 0 && !string_set_has_meta_arc(required))
-        {
-            // RC sets a constraint
-            for (StringSet::iterator it = required.begin();
-                 it != required.end(); ++it)
-            {
-                if (disallowed.count(*it) == 0)
-                {
-                    allowed_initial_symbols.insert(*it);
-                }
-            }
-            return;
-        }
-        else
-        {
-            // Anything goes except what is disallowed
-            if (disallowed.size() == 0 || string_set_has_meta_arc(disallowed))
-            {
-                return;
-            }
-            else
-            {
-                disallowed_initial_symbols.insert(disallowed.begin(),
-                                                  disallowed.end());
-                return;
-            }
-        }
-    }
-
-    // Now we can assume that "allowed" is nonempty and non-meta.
-
-    if (required.size() == 0 || string_set_has_meta_arc(required))
-    {
-        // RC poses no constraint
-        for (StringSet::iterator it = allowed.begin(); it != allowed.end();
-             ++it)
-        {
-            if (disallowed.count(*it) == 0)
-            {
-                allowed_initial_symbols.insert(*it);
-            }
-        }
-        return;
-    }
-
-    // Now we can assume that there is a genuine RC constraint.
-
-    for (StringSet::iterator it = required.begin(); it != required.end(); ++it)
-    {
-        if (allowed.count(*it) == 1 && disallowed.count(*it) == 0)
-        {
-            allowed_initial_symbols.insert(*it);
-        }
-    }
-    return;
+    allowed_initial_symbols.insert(allowed.begin(), allowed.end());
 }
 
 void
diff --git a/libhfst/src/parsers/pmatch_utils.h b/libhfst/src/parsers/pmatch_utils.h
index 9f373d5..3a9d501 100644
--- a/libhfst/src/parsers/pmatch_utils.h
+++ b/libhfst/src/parsers/pmatch_utils.h
@@ -470,15 +470,8 @@ struct PmatchObject {
         { return false; }
     virtual void collect_strings_into(StringVector & strings) { return; }
     virtual void collect_initial_symbols_into(
-        StringSet & allowed, StringSet & disallowed);
+        StringSet & allowed);
     virtual StringSet get_real_initial_symbols();
-    virtual StringSet get_real_initial_symbols_from_right();
-    virtual bool is_left_concatenation_with_context();
-    virtual bool is_context();
-    virtual bool is_delimiter();
-    virtual StringSet get_initial_symbols_from_unary_root();
-    virtual StringSet get_initial_RC_initial_symbols();
-    virtual StringSet get_initial_NRC_initial_symbols();
     void expand_Ins_arcs(StringSet & ss);
     virtual HfstTransducer * evaluate() = 0;
     virtual HfstTransducer * evaluate(std::vector<PmatchObject *> args);
@@ -629,11 +622,6 @@ struct PmatchUnaryOperation: public PmatchObject{
     PmatchUnaryOperation(PmatchUnaryOp _op, PmatchObject * _root):
         op(_op), root(_root) {}
     HfstTransducer * evaluate();
-    StringSet get_initial_RC_initial_symbols();
-    StringSet get_initial_NRC_initial_symbols();
-    bool is_context();
-    bool is_delimiter();
-    StringSet get_initial_symbols_from_unary_root();
 };
 
 struct PmatchBinaryOperation: public PmatchObject{
@@ -646,10 +634,6 @@ struct PmatchBinaryOperation: public PmatchObject{
     StringPair as_string_pair();
     bool is_unweighted_disjunction_of_strings();
     void collect_strings_into(StringVector & strings);
-    StringSet get_real_initial_symbols_from_right();
-    bool is_left_concatenation_with_context();
-    StringSet get_initial_RC_initial_symbols();
-    StringSet get_initial_NRC_initial_symbols();
 };
 
 struct PmatchTernaryOperation: public PmatchObject{
-- 
2.43.0


From 421cb55adef943de87a74879128ff4a119216277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:37 +0000
Subject: [PATCH 80/97] fix: the initial symbol list of a pmatch archive could
 be read back as multicharacter symbols

---
 libhfst/src/parsers/pmatch_utils.cc | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/libhfst/src/parsers/pmatch_utils.cc b/libhfst/src/parsers/pmatch_utils.cc
index 45b5bb9..aa25639 100644
--- a/libhfst/src/parsers/pmatch_utils.cc
+++ b/libhfst/src/parsers/pmatch_utils.cc
@@ -1718,6 +1718,31 @@ compile(const string &pmatch, map<string, HfstTransducer *> &defs,
         }
         initial_symbols_ok = false;
     }
+    // The list will be read by tokenizing it, so it mustn't contain
+    // multicharacter symbols, not even ones that arise between its members
+    hfst::StringSet top_symbols;
+    if (initial_symbols_list.size() != 0)
+    {
+        top_symbols = get_non_special_alphabet(retval["TOP"]);
+    }
+    for (hfst::StringSet::const_iterator it = top_symbols.begin();
+         it != top_symbols.end(); ++it)
+    {
+        // count the bytes that don't continue a UTF-8 character
+        size_t characters = 0;
+        for (std::string::const_iterator c = it->begin(); c != it->end(); ++c)
+        {
+            if ((*c & 0xC0) != 0x80)
+            {
+                ++characters;
+            }
+        }
+        if (characters > 1
+            && initial_symbols_list.find(*it) != std::string::npos)
+        {
+            initial_symbols_ok = false;
+        }
+    }
     if (initial_symbols_ok && initial_symbols_list.size() != 0)
     {
         variables["initial-symbols"] = initial_symbols_list;
-- 
2.43.0


From 2fa2c9a6a1ad949f5848ba5b266c8c847dff93cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:31 +0000
Subject: [PATCH 81/97] fix: rotate stack in the xfst interpreter reversed the
 stack instead of moving its top to the bottom

---
 libhfst/src/parsers/XfstCompiler.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index 52b364a..45e29db 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -1873,13 +1873,21 @@ XfstCompiler::rotate()
         PROMPT_AND_RETURN_THIS;
     }
 
+    // move the topmost network to the bottom
+    HfstTransducer *topmost = stack_.top();
+    stack_.pop();
     stack<HfstTransducer *> tmp;
     while (!stack_.empty())
     {
         tmp.push(stack_.top());
         stack_.pop();
     }
-    stack_ = tmp;
+    stack_.push(topmost);
+    while (!tmp.empty())
+    {
+        stack_.push(tmp.top());
+        tmp.pop();
+    }
 
     PRINT_INFO_PROMPT_AND_RETURN_THIS;
 }
-- 
2.43.0


From 7c22b42eb731d46de56bebdcc0c14f2881e1fce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:31 +0000
Subject: [PATCH 82/97] fix: test upper-universal and lower-universal in the
 xfst interpreter tested for a single symbol

---
 libhfst/src/parsers/XfstCompiler.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index 45e29db..daa412d 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -2421,14 +2421,20 @@ XfstCompiler::test_uni(Level level, bool assertion)
     }
 
     HfstTransducer tmp(*temp);
-    tmp.input_project();
-    HfstTransducer id(hfst::internal_identity, tmp.get_type());
+    HfstTransducer universal(hfst::internal_identity, tmp.get_type());
+    universal.repeat_star();
     bool value = false;
 
     if (level == UPPER_LEVEL)
-        value = id.compare(tmp, false);
+    {
+        tmp.input_project();
+        value = universal.compare(tmp);
+    }
     else if (level == LOWER_LEVEL)
-        value = !id.compare(tmp, false);
+    {
+        tmp.output_project();
+        value = universal.compare(tmp);
+    }
     else
     {
         error()
-- 
2.43.0


From 798d4304b08a8aa14009c56b09ac6b27b7129112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:31 +0000
Subject: [PATCH 83/97] fix: regular expressions did not see definitions loaded
 with load defined in the xfst interpreter

---
 libhfst/src/parsers/XfstCompiler.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index daa412d..820ec41 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -1926,7 +1926,9 @@ XfstCompiler::add_loaded_definition(HfstTransducer *t)
         delete it->second;
         definitions_.erase(def_name);
     }
+    xre_.define(def_name, *t);
     definitions_[def_name] = t;
+    original_definitions_[def_name] = "<net loaded from file>";
     return *this;
 }
 
-- 
2.43.0


From 5146a02c24d88bc1e8c3ada0ad4c03b07491ee32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:31 +0000
Subject: [PATCH 84/97] fix: print defined in the xfst interpreter listed
 undefined names

---
 libhfst/src/parsers/XfstCompiler.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index 820ec41..21945c3 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -1664,6 +1664,7 @@ XfstCompiler::undefine(const char *name_list)
             delete it->second;
             definitions_.erase(it);
             xre_.undefine(name); // XRE
+            original_definitions_.erase(name);
         }
         name = strtok(NULL, " ");
     }
-- 
2.43.0


From a63e71a5f1894388223e7a06a2fb214527383dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:31 +0000
Subject: [PATCH 85/97] fix: the xfst interpreter did not accept functions with
 names of one character

---
 libhfst/src/parsers/xfst-lexer.ll | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhfst/src/parsers/xfst-lexer.ll b/libhfst/src/parsers/xfst-lexer.ll
index fd493e1..b1119b0 100644
--- a/libhfst/src/parsers/xfst-lexer.ll
+++ b/libhfst/src/parsers/xfst-lexer.ll
@@ -236,7 +236,7 @@ LWSP [\t ]*
     return DEFINE_NAME;
 }
 
-"define"{WSP}+{NAMETOKEN}{PROTOTYPE} {
+"define"{WSP}+{PROTOTYPE} {
     BEGIN(REGEX_STATE);
     hxfstlval.name = hfst::xfst::strstrip(yytext+strlen("define "));
     return DEFINE_FUNCTION;
-- 
2.43.0


From 0e3663cecd045972f7733272e60b787fed5d7036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:24 +0000
Subject: [PATCH 86/97] fix: test identity in the xfst interpreter accepted
 relations between different strings

---
 libhfst/src/parsers/XfstCompiler.cc | 72 ++++++++++++++++++++++++++---
 1 file changed, 66 insertions(+), 6 deletions(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index 21945c3..dbf96df 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -74,6 +74,7 @@ extern void hxfst_delete_buffer(YY_BUFFER_STATE);
 
 using hfst::implementations::HfstBasicTransducer;
 using hfst::implementations::HfstBasicTransition;
+using hfst::implementations::HfstState;
 #ifdef WINDOWS
 using hfst::hfst_fprintf_console;
 #endif
@@ -2377,6 +2378,70 @@ XfstCompiler::test_funct(bool assertion)
     flush(&error());
     PROMPT_AND_RETURN_THIS;
 }
+// Whether \a transducer maps each of its input strings only to itself.
+static bool
+is_identity_relation(const HfstTransducer &transducer)
+{
+    HfstTransducer minimized(transducer);
+    minimized.minimize(); // from now on, each state lies on some path
+    HfstBasicTransducer fsm(minimized);
+
+    // What one side has that the other side does not have yet; the same
+    // for all paths to a state, if the relation is an identity.
+    typedef std::pair<StringVector, StringVector> Delay;
+    std::map<HfstState, Delay> delays;
+    std::vector<HfstState> agenda(1, 0);
+    delays[0] = Delay();
+
+    while (!agenda.empty())
+    {
+        HfstState state = agenda.back();
+        agenda.pop_back();
+        const Delay delay = delays[state];
+
+        if (fsm.is_final_state(state)
+            && !(delay.first.empty() && delay.second.empty()))
+        {
+            return false;
+        }
+        for (const auto &tr : fsm[state])
+        {
+            const std::string &isymbol = tr.get_input_symbol();
+            const std::string &osymbol = tr.get_output_symbol();
+            Delay d(delay);
+            if (!hfst::is_epsilon(isymbol) && !FdOperation::is_diacritic(isymbol))
+                d.first.push_back(isymbol);
+            if (!hfst::is_epsilon(osymbol) && !FdOperation::is_diacritic(osymbol))
+                d.second.push_back(osymbol);
+
+            size_t matched = 0;
+            while (matched < d.first.size() && matched < d.second.size())
+            {
+                if (d.first[matched] != d.second[matched]
+                    || hfst::is_unknown(d.first[matched]))
+                {
+                    return false;
+                }
+                matched++;
+            }
+            d.first.erase(d.first.begin(), d.first.begin() + matched);
+            d.second.erase(d.second.begin(), d.second.begin() + matched);
+
+            auto it = delays.find(tr.get_target_state());
+            if (it == delays.end())
+            {
+                delays[tr.get_target_state()] = d;
+                agenda.push_back(tr.get_target_state());
+            }
+            else if (it->second != d)
+            {
+                return false;
+            }
+        }
+    }
+    return true;
+}
+
 XfstCompiler &
 XfstCompiler::test_id(bool assertion)
 {
@@ -2386,12 +2451,7 @@ XfstCompiler::test_id(bool assertion)
         return *this;
     }
 
-    HfstTransducer tmp_input(*tmp);
-    tmp_input.input_project();
-    HfstTransducer tmp_output(*tmp);
-    tmp_output.output_project();
-
-    bool result = tmp_input.compare(tmp_output, false);
+    bool result = is_identity_relation(*tmp);
     this->print_bool(result);
     MAYBE_ASSERT(assertion, result);
     PROMPT_AND_RETURN_THIS;
-- 
2.43.0


From 329181cb4f24f686e5c283fa51842b69d0a3f86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:57 +0000
Subject: [PATCH 87/97] fix: print name in the xfst interpreter could print
 another network's name

---
 libhfst/src/parsers/XfstCompiler.cc | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index dbf96df..12ef31d 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -3596,14 +3596,12 @@ XfstCompiler::print_name(std::ostream *oss_)
     std::ostream *oss = get_stream(oss_);
     GET_TOP(tmp);
 
-    for (const auto &it : names_)
+    std::string name = tmp->get_name();
+    if (!name.empty())
     {
-        if (tmp == it.second)
-        {
-            *oss << "Name " << it.first << std::endl;
-            flush(oss);
-            PROMPT_AND_RETURN_THIS;
-        }
+        *oss << "Name " << name << std::endl;
+        flush(oss);
+        PROMPT_AND_RETURN_THIS;
     }
 
     *oss << "No name." << std::endl;
-- 
2.43.0


From c03d959f002788401c1bbf9e9c9625ed4599c0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:46 +0000
Subject: [PATCH 88/97] fix: stack operations of the xfst interpreter that fail
 lost networks or ended the interpreter

---
 libhfst/src/parsers/XfstCompiler.cc | 37 +++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index 12ef31d..0a94b4b 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -4449,12 +4449,18 @@ XfstCompiler::apply_binary_operation_iteratively(BinaryOperation operation)
         xfst_lesser_fail();
         return *this;
     }
-    HfstTransducer *result = stack_.top();
+    // The stack is not changed before the operation is known to succeed.
+    std::stack<HfstTransducer *> operands(stack_);
+    std::unique_ptr<HfstTransducer> result_ptr(
+        new HfstTransducer(*operands.top()));
+    HfstTransducer *result = result_ptr.get();
+    operands.pop();
 
-    stack_.pop();
-    while (!stack_.empty())
+    while (!operands.empty())
     {
-        HfstTransducer *t = stack_.top();
+        HfstTransducer operand(*operands.top());
+        HfstTransducer *t = &operand;
+        operands.pop();
 
         if (t->get_type() != result->get_type())
         {
@@ -4462,7 +4468,8 @@ XfstCompiler::apply_binary_operation_iteratively(BinaryOperation operation)
                     << std::endl;
             flush(&error());
             xfst_lesser_fail();
-            break;
+            prompt();
+            return *this;
         }
 
         switch (operation)
@@ -4525,16 +4532,32 @@ XfstCompiler::apply_binary_operation_iteratively(BinaryOperation operation)
             result->disjunct(*t);
             break;
         case SHUFFLE_NET:
-            result->shuffle(*t);
+            try
+            {
+                result->shuffle(*t);
+            }
+            catch (const TransducersAreNotAutomataException &e)
+            {
+                (void)e;
+                error() << "transducers are not automata" << std::endl;
+                flush(&error());
+                xfst_fail();
+                prompt();
+                return *this;
+            }
             break;
         default:
             error() << "ERROR: unknown binary operation" << std::endl;
             flush(&error());
             break;
         }
+    }
+    while (!stack_.empty())
+    {
+        delete stack_.top();
         stack_.pop();
-        delete t;
     }
+    result_ptr.release();
     MAYBE_MINIMIZE(result);
     stack_.push(result);
     PRINT_INFO_PROMPT_AND_RETURN_THIS;
-- 
2.43.0


From 052e18300ceb4407e357dd3eaaa4ead63bc3d584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:57 +0000
Subject: [PATCH 89/97] fix: source in the xfst interpreter dropped the
 commands after it

---
 libhfst/src/parsers/xfst-lexer.ll | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhfst/src/parsers/xfst-lexer.ll b/libhfst/src/parsers/xfst-lexer.ll
index b1119b0..737ab34 100644
--- a/libhfst/src/parsers/xfst-lexer.ll
+++ b/libhfst/src/parsers/xfst-lexer.ll
@@ -832,13 +832,13 @@ LWSP [\t ]*
 "!"+\n     { /* skip an empty comment */ }
 
 <<EOF>> {
-    --source_stack_size;
     // end of input
-    if (source_stack_size < 0) {
+    if (source_stack_size == 0) {
       yyterminate();
     }
     // EOF encountered because reaching end of included input
     else {
+      --source_stack_size;
       hxfstpop_buffer_state();
     }
 }
-- 
2.43.0


From 82d3f4e4090d36303bd6002f80706c11ba496729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:23 +0000
Subject: [PATCH 90/97] fix: extract_shortest_paths (print shortest-string)
 could give a path that is not a shortest one

---
 libhfst/src/HfstTransducer.cc | 54 ++++++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/libhfst/src/HfstTransducer.cc b/libhfst/src/HfstTransducer.cc
index d4b1926..b2388db 100644
--- a/libhfst/src/HfstTransducer.cc
+++ b/libhfst/src/HfstTransducer.cc
@@ -2827,14 +2827,54 @@ HfstTransducer::extract_longest_paths(
 void
 HfstTransducer::extract_shortest_paths(HfstTwoLevelPaths &results) const
 {
-#if HAVE_OPENFST
     HfstTransducer t(*this);
-    t.convert(TROPICAL_OPENFST_TYPE);
-    t.n_best(1);
-    t.extract_paths(results);
-    return;
-#endif
-    HFST_THROW(FunctionNotImplementedException);
+    t.remove_epsilons();
+    hfst::implementations::HfstBasicTransducer fsm(t);
+
+    // For each state, the lightest of the paths from the initial state
+    // that have a given number of transitions.
+    typedef std::map<hfst::implementations::HfstState, HfstTwoLevelPath> PathMap;
+    PathMap paths;
+    paths[0] = HfstTwoLevelPath(0, StringPairVector());
+
+    // A shortest path visits each state at most once.
+    for (unsigned int length = 0; length <= fsm.get_max_state(); length++)
+    {
+        bool found = false;
+        HfstTwoLevelPath shortest;
+        PathMap longer_paths;
+        for (const auto &path : paths)
+        {
+            if (fsm.is_final_state(path.first))
+            {
+                float weight = path.second.first
+                               + fsm.get_final_weight(path.first);
+                if (!found || weight < shortest.first)
+                {
+                    shortest = HfstTwoLevelPath(weight, path.second.second);
+                    found = true;
+                }
+            }
+            for (const auto &tr : fsm[path.first])
+            {
+                float weight = path.second.first + tr.get_weight();
+                auto it = longer_paths.find(tr.get_target_state());
+                if (it == longer_paths.end() || weight < it->second.first)
+                {
+                    HfstTwoLevelPath longer(weight, path.second.second);
+                    longer.second.push_back(StringPair(
+                        tr.get_input_symbol(), tr.get_output_symbol()));
+                    longer_paths[tr.get_target_state()] = longer;
+                }
+            }
+        }
+        if (found)
+        {
+            results.insert(shortest);
+            return;
+        }
+        paths = longer_paths;
+    }
 }
 
 void
-- 
2.43.0


From 27d1a6d1793b6a763088b8b7ef21ab95c259d87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:53 +0000
Subject: [PATCH 91/97] fix: test equivalent in the xfst interpreter ignored
 that ? covers the other network's symbols

---
 libhfst/src/parsers/XfstCompiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhfst/src/parsers/XfstCompiler.cc b/libhfst/src/parsers/XfstCompiler.cc
index 0a94b4b..0eadf91 100644
--- a/libhfst/src/parsers/XfstCompiler.cc
+++ b/libhfst/src/parsers/XfstCompiler.cc
@@ -2330,7 +2330,7 @@ XfstCompiler::test_eq(bool assertion)
     stack_.pop();
     HfstTransducer *second = stack_.top();
     stack_.pop();
-    bool result = first->compare(*second, false);
+    bool result = first->compare(*second);
     print_bool(result);
     stack_.push(second);
     stack_.push(first);
-- 
2.43.0


From a0155db0051e46e615ec2bee59b79e01e3df96d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:50 +0000
Subject: [PATCH 92/97] fix: hfst-proc read before its token buffer when a word
 ended where the buffer wraps

---
 tools/src/hfst-proc/buffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/src/hfst-proc/buffer.h b/tools/src/hfst-proc/buffer.h
index 928bc92..e0f02ad 100644
--- a/tools/src/hfst-proc/buffer.h
+++ b/tools/src/hfst-proc/buffer.h
@@ -187,7 +187,8 @@ public:
    */
   T & get(size_t pos) const
     {
-      return buf[pos];
+      // the position before the first one is the last one
+      return buf[(pos + size) % size];
     }
  
   /**
-- 
2.43.0


From 1d04fdf9bb4a7c915d56a40e40fdb4e4c7103474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:50 +0000
Subject: [PATCH 93/97] fix: hfst-proc dropped text at the end of the stream
 that might begin a symbol

---
 tools/src/hfst-proc/alphabet.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tools/src/hfst-proc/alphabet.cc b/tools/src/hfst-proc/alphabet.cc
index 168ad7b..c70caee 100644
--- a/tools/src/hfst-proc/alphabet.cc
+++ b/tools/src/hfst-proc/alphabet.cc
@@ -72,7 +72,12 @@ LetterTrie::extract_symbol(std::istream &is) const
 {
     int c = is.get();
     if (c == EOF)
-        return 0;
+    {
+        // the stream ended inside what might have been a symbol; what has
+        // been read so far is put back by the callers
+        is.clear();
+        return NO_SYMBOL_NUMBER;
+    }
 
     if (letters[c] == NULL)
     {
@@ -137,6 +142,8 @@ SymbolNumber
 Symbolizer::extract_symbol(std::istream &is) const
 {
     int c = is.peek();
+    if (c == EOF)
+        return 0;
     if (c == 0)
         return NO_SYMBOL_NUMBER;
     if (ascii_symbols[c] == NO_SYMBOL_NUMBER || ascii_symbols[c] == 0)
-- 
2.43.0


From 3b9b3ad8eef241562a421a3f8e78414893cd9c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:50 +0000
Subject: [PATCH 94/97] fix: hfst-proc read beyond the index table for symbols
 that are no input symbols

---
 tools/src/hfst-proc/lookup-state.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/src/hfst-proc/lookup-state.cc b/tools/src/hfst-proc/lookup-state.cc
index b7b9d8f..5e2eefe 100644
--- a/tools/src/hfst-proc/lookup-state.cc
+++ b/tools/src/hfst-proc/lookup-state.cc
@@ -271,6 +271,11 @@ LookupState::try_index(LookupPathVector& new_paths,
                          const LookupPath& path,
                          const SymbolNumber input) const
 {
+  // symbols that are no input symbols of the transducer, such as case variants
+  // added to the alphabet, have no entries in the index table
+  if(input >= transducer.get_header().input_symbol_count())
+    return false;
+
   //??? is the +1 here correct?
   TransitionIndex index = transducer.get_index(path.get_index()+input+1);
   
-- 
2.43.0


From c6ee83da316b32b6f450fb840a6e2dd8076c64b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:50 +0000
Subject: [PATCH 95/97] fix: hfst-proc compared addresses, not weights, of
 equal analyses

---
 tools/src/hfst-proc/lookup-state.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/hfst-proc/lookup-state.cc b/tools/src/hfst-proc/lookup-state.cc
index 5e2eefe..50e19a1 100644
--- a/tools/src/hfst-proc/lookup-state.cc
+++ b/tools/src/hfst-proc/lookup-state.cc
@@ -140,7 +140,7 @@ LookupState::get_finals_set() const
       {
         if(printDebuggingInformationFlag)
           std::cout << "  Duplicate LookupPath found" << std::endl;
-        if(*i < *(loc.first)) // if this form has a lower weight than the one there
+        if(LookupPathW::compare_weights(*i, *(loc.first))) // if this form has a lower weight than the one there
         {
           finals.erase(loc.first);
           finals.insert(*i);
-- 
2.43.0


From a3104109aaa5d98f37627162a849a38dade69d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:50 +0000
Subject: [PATCH 96/97] fix: hfst-proc lost a word at the end of a stream
 without a final newline

---
 tools/src/hfst-proc/applicators.cc | 5 ++++-
 tools/src/hfst-proc/tokenizer.cc   | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/tools/src/hfst-proc/applicators.cc b/tools/src/hfst-proc/applicators.cc
index 97428c7..606605a 100644
--- a/tools/src/hfst-proc/applicators.cc
+++ b/tools/src/hfst-proc/applicators.cc
@@ -92,7 +92,10 @@ AnalysisApplicator::apply()
     ProcResult analyzed_forms;
 
     Token next_token;
-    while ((next_token = token_stream.get_token()).type != None)
+    // a word may be pending at the end of the stream, which ends it like any
+    // token that does not continue it
+    while ((next_token = token_stream.get_token()).type != None
+           || !surface_form.empty())
     {
         if (printDebuggingInformationFlag)
         {
diff --git a/tools/src/hfst-proc/tokenizer.cc b/tools/src/hfst-proc/tokenizer.cc
index 3ddaff7..8c27221 100644
--- a/tools/src/hfst-proc/tokenizer.cc
+++ b/tools/src/hfst-proc/tokenizer.cc
@@ -373,9 +373,9 @@ TokenIOStream::get_token()
     if (!token_buffer.isEmpty())
         return token_buffer.next();
 
+    // the end of the stream has a position of its own in the buffer as well
     Token token = read_token();
-    if (token.type != None)
-        token_buffer.add(token);
+    token_buffer.add(token);
     return token;
 }
 
-- 
2.43.0


From 0eec1fc9577ad1810a201aa753efed28d406f0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:50 +0000
Subject: [PATCH 97/97] fix: hfst-proc lost text after a punctuation mark that
 begins no word

---
 tools/src/hfst-proc/applicators.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tools/src/hfst-proc/applicators.cc b/tools/src/hfst-proc/applicators.cc
index 606605a..29f24c0 100644
--- a/tools/src/hfst-proc/applicators.cc
+++ b/tools/src/hfst-proc/applicators.cc
@@ -178,7 +178,10 @@ AnalysisApplicator::apply()
                 // if this is false, then we need to move the token stream back
                 // far enough that next_token will be read again next iteration
                 bool next_token_is_part_of_word = false;
-                if (token_stream.is_alphabetic(next_token))
+                bool starts_word
+                    = surface_form.empty()
+                      || token_stream.is_alphabetic(surface_form[0]);
+                if (starts_word && token_stream.is_alphabetic(next_token))
                 {
                     next_token_is_part_of_word = true;
                     do
@@ -191,11 +194,12 @@ AnalysisApplicator::apply()
                     token_stream.move_back(1);
                 }
 
-                if (!token_stream.is_alphabetic(surface_form[0]))
+                if (!starts_word)
                 {
+                    // continue from the token after the first one
                     if (formatter.preserve_nonalphabetic())
                         token_stream << surface_form[0];
-                    token_stream.move_back(surface_form.size() - 1);
+                    token_stream.move_back(surface_form.size());
                 }
                 else
                 {
-- 
2.43.0

