From 08475f26d3e81c28de2aca47e9eac7c2d49a63fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:20 +0000
Subject: [PATCH 01/90] fix: decode ^^ notation as TeX does (end of input,
 non-ASCII characters, ^^xx)

---
 plasTeX/Tokenizer.py | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index b5d17e2..38fbd2c 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -25,6 +25,9 @@ DEFAULT_CATEGORIES = [
    ''     # 15 - Invalid character
 ]
 
+# Digits of the ^^xx notation
+HEXDIGITS = '0123456789abcdef'
+
 VERBATIM_CATEGORIES = [''] * 16
 VERBATIM_CATEGORIES[11] = encoding.stringletters()
 
@@ -271,21 +274,36 @@ class Tokenizer(object):
 
             code = whichCode(token)
 
-            if code == CC_SUPER:
-
-                # Handle characters like ^^M, ^^@, etc.
+            # Handle characters like ^^M, ^^@, ^^5e, etc.
+            while code == CC_SUPER:
                 next_char = _read1()
 
                 if next_char != token:
-                    self.pushChar(next_char)
-                else:
-                    next_char = _read1()
-                    num = ord(next_char)
-                    if num >= 64:
-                        token = chr(num-64)
-                    else:
-                        token = chr(num+64)
-                    code = whichCode(token)
+                    if next_char:
+                        mybuffer.insert(0, next_char)
+                    break
+
+                code_char = _read1()
+
+                # Only characters below 128 can follow ^^
+                if not code_char or ord(code_char) >= 128:
+                    if code_char:
+                        mybuffer.insert(0, code_char)
+                    mybuffer.insert(0, next_char)
+                    break
+
+                num = ord(code_char)
+                token = chr(num-64) if num >= 64 else chr(num+64)
+
+                # Two lowercase hexadecimal digits
+                if code_char in HEXDIGITS:
+                    code_char2 = _read1()
+                    if code_char2 and code_char2 in HEXDIGITS:
+                        token = chr(int(code_char + code_char2, 16))
+                    elif code_char2:
+                        mybuffer.insert(0, code_char2)
+
+                code = whichCode(token)
 
             # Just go to the next character if you see one of these...
             if code in (CC_IGNORED, CC_INVALID):
-- 
2.43.0


From 02ee2ee08667faeaff0be9d221fb69c0d00aa5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:31 +0000
Subject: [PATCH 02/90] fix: skip blanks after every control word and control
 space, whatever letters it is made of

---
 plasTeX/Tokenizer.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index 38fbd2c..c2a22fc 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -451,20 +451,10 @@ class Tokenizer(object):
 
                     else:
                         token = EscapeSequence(next_char)
-#
-# Because we can implement macros both in LaTeX and Python, we don't
-# always want the whitespace to be eaten.  For example, implementing
-# \chardef\%=`% would be \char{`%} in TeX, but in Python it's just
-# another macro class that would eat whitspace incorrectly.  So we
-# have to do this kind of thing in the parse() method of Macro.
-#
-                    if next_code != CC_EOL:
-# HACK: I couldn't get the parse() thing to work so I'm just not
-#       going to parse whitespace after EscapeSequences that end in
-#       non-letter characters as a half-assed solution.
-                        if token[-1] in encoding.stringletters():
-                            # Absorb following whitespace
-                            self.state = STATE_S
+                    # Absorb whitespace following control words and
+                    # control spaces
+                    if next_code in (CC_LETTER, CC_SPACE):
+                        self.state = STATE_S
 
                     break
 
-- 
2.43.0


From 00cd5efd33ee986b53d34b208ebf695d99c90b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:29 +0000
Subject: [PATCH 03/90] fix: ignored and invalid characters are dropped between
 tokens, not inside control sequence names

---
 plasTeX/Tokenizer.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index c2a22fc..5969b2e 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -241,8 +241,7 @@ class Tokenizer(object):
         Get the next character in the stream and its category code
 
         This function handles automatically converts characters like
-        ^^M, ^^@, etc. into the correct character.  It also bypasses
-        ignored and invalid characters.
+        ^^M, ^^@, etc. into the correct character.
 
         If you are iterating through the characters in a TeX instance
         and you go too far, you can put the character back with
@@ -255,8 +254,6 @@ class Tokenizer(object):
 
         whichCode = self.context.whichCode
         CC_SUPER = Token.CC_SUPER
-        CC_IGNORED = Token.CC_IGNORED
-        CC_INVALID = Token.CC_INVALID
 
         def _read1():
             if mybuffer:
@@ -305,10 +302,6 @@ class Tokenizer(object):
 
                 code = whichCode(token)
 
-            # Just go to the next character if you see one of these...
-            if code in (CC_IGNORED, CC_INVALID):
-                continue
-
             yield (code, token)
 
     def pushChar(self, char: str):
@@ -377,6 +370,8 @@ class Tokenizer(object):
         CC_EOL = Token.CC_EOL
         CC_COMMENT = Token.CC_COMMENT
         CC_ACTIVE = Token.CC_ACTIVE
+        CC_IGNORED = Token.CC_IGNORED
+        CC_INVALID = Token.CC_INVALID
         prev = None
 
         while 1:
@@ -396,6 +391,10 @@ class Tokenizer(object):
                 self.state = STATE_M
                 token = tokenClasses[code](char)
 
+            # Just go to the next character if you see one of these...
+            elif code in (CC_IGNORED, CC_INVALID):
+                continue
+
             # Whitespace
             elif code == CC_SPACE:
                 if self.state  == STATE_S or self.state == STATE_N:
-- 
2.43.0


From de8f0c26674bd82898c20dee0103f89aebbf325e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:47 +0000
Subject: [PATCH 04/90] fix: every input line starts in state N; a category 5
 character drops the rest of its line

---
 plasTeX/Tokenizer.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index 5969b2e..ad44934 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -393,11 +393,15 @@ class Tokenizer(object):
 
             # Just go to the next character if you see one of these...
             elif code in (CC_IGNORED, CC_INVALID):
+                if char == '\n':
+                    self.state = STATE_N
                 continue
 
             # Whitespace
             elif code == CC_SPACE:
                 if self.state  == STATE_S or self.state == STATE_N:
+                    if char == '\n':
+                        self.state = STATE_N
                     continue
                 self.state = STATE_S
                 token = Space(' ')
@@ -405,19 +409,17 @@ class Tokenizer(object):
             # End of line
             elif code == CC_EOL:
                 state = self.state
+                self.state = STATE_N
+                # The rest of the line is dropped
+                if char != '\n':
+                    self.lineNumber += 1
+                    self.readline()
                 if state == STATE_S:
-                    self.state = STATE_N
                     continue
                 elif state == STATE_M:
                     token = Space(' ')
                     code = CC_SPACE
-                    self.state = STATE_N
                 elif state == STATE_N:
-                    # ord(token) != 10 is the same as saying token != '\n'
-                    # but it is much faster.
-                    if ord(char) != 10:
-                        self.lineNumber += 1
-                        self.readline()
                     token = EscapeSequence('par')
                     # Prevent adjacent paragraphs
                     if prev == token:
@@ -442,19 +444,23 @@ class Tokenizer(object):
                                 break
                         token = EscapeSequence(''.join(word))
 
-                    elif next_code == CC_EOL:
+                    elif next_code == CC_EOL and next_char == '\n':
                         #pushChar(token)
                         #token = EscapeSequence()
                         token = Space(' ')
-                        self.state = STATE_S
 
                     else:
                         token = EscapeSequence(next_char)
+
                     # Absorb whitespace following control words and
                     # control spaces
                     if next_code in (CC_LETTER, CC_SPACE):
                         self.state = STATE_S
 
+                    # The control symbol included the end of the line
+                    if next_char == '\n' and next_code != CC_LETTER:
+                        self.state = STATE_N
+
                     break
 
                 else: token = EscapeSequence()
@@ -471,8 +477,9 @@ class Tokenizer(object):
                     continue
 
             elif code == CC_COMMENT:
-                self.readline()
-                self.lineNumber += 1
+                if char != '\n':
+                    self.readline()
+                    self.lineNumber += 1
                 self.state = STATE_N
                 continue
 
@@ -485,6 +492,11 @@ class Tokenizer(object):
                 token = tokenClasses[code](char)
                 self.state = STATE_M
 
+            # The next line starts in state N, whatever the category of
+            # the end-of-line character is
+            if char == '\n':
+                self.state = STATE_N
+
             prev = token
 
             yield token
-- 
2.43.0


From 6c5bc4f257fcd64abc71ad2888c55c45480b14a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:06 +0000
Subject: [PATCH 05/90] fix: limit filename variables to words before replacing
 forbidden characters; accept empty values

---
 plasTeX/Filenames.py | 41 +++++++++++++++--------------------------
 1 file changed, 15 insertions(+), 26 deletions(-)

diff --git a/plasTeX/Filenames.py b/plasTeX/Filenames.py
index 3323e23..688f579 100644
--- a/plasTeX/Filenames.py
+++ b/plasTeX/Filenames.py
@@ -130,6 +130,13 @@ class Filenames(object):
         for name in self.newFilename:
             return name
 
+    def replaceBadChars(self, value):
+        """ Replace the characters that are illegal in a filename """
+        if self.charsub:
+            for char in self.charsub[0]:
+                value = value.replace(char, self.charsub[1])
+        return value
+
     def addExtension(self, filename):
         """ Add a file extension to the filename if none exists """
         ext = os.path.splitext(filename)[-1]
@@ -164,25 +171,16 @@ class Filenames(object):
 
         # Return static filenames
         for item in static:
-            currentns = self.variables.copy()
-            for key, value in list(currentns.items()):
-                if self.charsub:
-                    for char in self.charsub[0]:
-                        value = value.replace(char, self.charsub[1])
-                currentns[key] = value
+            currentns = {key: self.replaceBadChars(value)
+                         for key, value in self.variables.items()}
             for key, format in keysre.findall(item):
                 # Supply a file number as needed
                 if key == 'num':
                     currentns['num'] = ('%%.%sd' % format) % num
                 # Limit other variables to specified number of words
                 elif format and key in currentns:
-                    value = currentns[key].split()
-                    newvalue = []
-                    for i in range(int(format)):
-                        newvalue.append(value.pop(0))
-                        if not value:
-                            break
-                    currentns[key] = ' '.join(newvalue)
+                    words = self.variables[key].split()[:int(format)]
+                    currentns[key] = self.replaceBadChars(' '.join(words))
             try:
                 # Strip formats
                 item = re.sub(r'(\$\{\w+)\.\d+(\})', r'\1\2', item)
@@ -206,25 +204,16 @@ class Filenames(object):
         while 1:
             passes += 1
             for item in wildcard:
-                currentns = self.variables.copy()
-                for key, value in list(currentns.items()):
-                    if self.charsub:
-                        for char in self.charsub[0]:
-                            value = value.replace(char, self.charsub[1])
-                    currentns[key] = value
+                currentns = {key: self.replaceBadChars(value)
+                             for key, value in self.variables.items()}
                 for key, format in keysre.findall(item):
                     # Supply a file number as needed
                     if key == 'num':
                         currentns['num'] = ('%%.%sd' % format) % num
                     # Limit other variables to specified number of words
                     elif format and key in currentns:
-                        value = currentns[key].split()
-                        newvalue = []
-                        for i in range(int(format)):
-                            newvalue.append(value.pop(0))
-                            if not value:
-                                break
-                        currentns[key] = ' '.join(newvalue)
+                        words = self.variables[key].split()[:int(format)]
+                        currentns[key] = self.replaceBadChars(' '.join(words))
                 try:
                     # Strip formats
                     item = re.sub(r'(\$\{\w+)\.\d+(\})', r'\1\2', item)
-- 
2.43.0


From 02bdde07030210ca2117b42668ee21ad95cf1a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:06 +0000
Subject: [PATCH 06/90] fix: keep the variables of a filename request, and its
 number of attempts, until a name is issued

---
 plasTeX/Filenames.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/plasTeX/Filenames.py b/plasTeX/Filenames.py
index 688f579..755a71f 100644
--- a/plasTeX/Filenames.py
+++ b/plasTeX/Filenames.py
@@ -188,11 +188,11 @@ class Filenames(object):
                 result = string.Template(item).substitute(currentns)
                 if 'num' in currentns:
                     num += 1
-                self.variables.clear()
-                self.variables.update(g)
                 result = self.addExtension(result)
                 if result not in self.invalid:
                     self.invalid[result] = None
+                    self.variables.clear()
+                    self.variables.update(g)
                     yield result
             except KeyError:
                 continue
@@ -221,11 +221,12 @@ class Filenames(object):
                     result = string.Template(item).substitute(currentns)
                     if 'num' in currentns:
                         num += 1
-                    self.variables.clear()
-                    self.variables.update(g)
                     result = self.addExtension(result)
                     if result not in self.invalid:
                         self.invalid[result] = None
+                        self.variables.clear()
+                        self.variables.update(g)
+                        passes = 0
                         yield result
                     else:
                         continue
-- 
2.43.0


From e8e2148c18084c3159ae6c95bda5ffd0fb893c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:51 +0000
Subject: [PATCH 07/90] fix: report an error for every filename that cannot be
 created, not only the first one

---
 plasTeX/Filenames.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/plasTeX/Filenames.py b/plasTeX/Filenames.py
index 755a71f..41954a3 100644
--- a/plasTeX/Filenames.py
+++ b/plasTeX/Filenames.py
@@ -127,8 +127,10 @@ class Filenames(object):
         return next(self)
 
     def __next__(self):
-        for name in self.newFilename:
-            return name
+        name = next(self.newFilename)
+        if name is None:
+            raise ValueError('Filename could not be created.')
+        return name
 
     def replaceBadChars(self, value):
         """ Replace the characters that are illegal in a filename """
@@ -239,6 +241,5 @@ class Filenames(object):
                 # We tried 100 different names and still don't have a unique
                 # one, we better just bail out.
                 if passes > 100:
-                    break
-
-        raise ValueError('Filename could not be created.')
+                    passes = 0
+                    yield None
-- 
2.43.0


From a24c0627a22277226d50c640dadbd373fce875bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:54 +0000
Subject: [PATCH 08/90] fix: variables of the first filename request do not
 leak into later ones

---
 plasTeX/Filenames.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/plasTeX/Filenames.py b/plasTeX/Filenames.py
index 41954a3..b603440 100644
--- a/plasTeX/Filenames.py
+++ b/plasTeX/Filenames.py
@@ -77,7 +77,7 @@ class Filenames(object):
         self.variables = variables or {}
         self.extension = extension
         self.invalid = invalid or {}
-        self.newFilename = self._newFilename()
+        self.newFilename = self._newFilename(self.variables.copy())
 
     def parseFilenames(self, spec):
         """ Parse and expand the filename string """
@@ -146,10 +146,14 @@ class Filenames(object):
             return filename + self.extension
         return filename
 
-    def _newFilename(self):
-        """ Generator that generates new filenames """
-        g = self.variables.copy()
+    def _newFilename(self, g):
+        """
+        Generator that generates new filenames
+
+        Arguments:
+        g -- the variables that the namespace is reset to
 
+        """
         # Split filenames into static and wildcard groups
         static = []
         wildcard = []
-- 
2.43.0


From 2459541b0a7f8fafca3a06b8a7308b804b9be7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:12 +0000
Subject: [PATCH 09/90] fix: document the actual defaults of seven
 configuration options

---
 Doc/command.tex | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/Doc/command.tex b/Doc/command.tex
index f179284..ca16798 100644
--- a/Doc/command.tex
+++ b/Doc/command.tex
@@ -144,7 +144,7 @@ specifies which theme to use.
 
 \begin{configuration}{Extra theme files}
 \options{\longprogramopt{copy-theme-extras} or
-         \longprogramopt{ignore-theme-extras}}
+         \longprogramopt{no-theme-extras}}
 \config{general}{copy-theme-extras}
 \default{yes}
 indicates whether or not extra files that belong to a theme (if there are
@@ -196,7 +196,7 @@ specifies a list of files that contain language terms
 \begin{configuration}{Section number depth}
 \options{\longprogramopt{sec-num-depth=\optval{integer}}}
 \config{document}{sec-num-depth}
-\default{6}
+\default{2}
 specifies the section level depth that should appear in section numbers.
 This value overrides the value of the secnumdepth counter in the document.
 \end{configuration}
@@ -544,7 +544,6 @@ specifies a base URL to prepend to the path of all images.
 \begin{configuration}{\LaTeX\ program to use to compile image document}
 \options{\longprogramopt{image-compiler=\optval{program}}}
 \config{images}{compiler}
-\default{latex}
 specifies which program to use to compile the images \LaTeX\ document. If
 unspecified, the default is specified by the imager. Note that not all imagers
 are compatible with all compilers. Specifically, some imagers need compilers
@@ -554,7 +553,6 @@ that produces pdf's and others need dvi's.
 \begin{configuration}{\LaTeX\ program to use to compile vector image document}
 \options{\longprogramopt{vector-image-compiler=\optval{program}}}
 \config{images}{vector-compiler}
-\default{latex}
 specifies which program to use to compile the vector images \LaTeX\ document. If
 unspecified, this uses the value of \longprogramopt{image-compiler}.
 \end{configuration}
@@ -571,7 +569,7 @@ indicates whether or not images should be generated.
 \options{\longprogramopt{enable-image-cache} or
          \longprogramopt{disable-image-cache}}
 \config{images}{cache}
-\default{yes}
+\default{no}
 indicates whether or not images should use a cache between runs.
 \end{configuration}
 
@@ -591,7 +589,7 @@ You can use the value of ``none'' to turn the imager off.
 \begin{configuration}{Image filenames}
 \options{\longprogramopt{image-filenames=\optval{filename-template}}}
 \config{images}{filenames}
-\default{images/img-\$num(4).png}
+\default{images/img-\$num(4)}
 specifies the image naming template to use to generate filenames.  This
 template is the same as the templates used by the \longprogramopt{filename}
 option.
@@ -734,7 +732,7 @@ some filter is expected to handle mathematics (see
 \begin{configuration}{MathJax library url}
 \options{\longprogramopt{mathjax-url=\optval{url}}}
 \config{html5}{mathjax-url}
-\default{http://cdn.mathjax.org/mathjax/latest/MathJax.js?config=TeX-AMS_CHTML}
+\default{https://cdn.jsdelivr.net/npm/mathjax@3/es5/tex-chtml.js}
 specifies where to find the MathJax javascript lib (including the config
 information as in the default value).
 \end{configuration}
-- 
2.43.0


From 6a88ad5fd3058379113859ed5dcf4ffc8ea381c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:12 +0000
Subject: [PATCH 10/90] fix: read no, false, off and 0 as false in
 configuration files

---
 plasTeX/ConfigManager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/plasTeX/ConfigManager.py b/plasTeX/ConfigManager.py
index 83f917b..374f213 100644
--- a/plasTeX/ConfigManager.py
+++ b/plasTeX/ConfigManager.py
@@ -55,6 +55,12 @@ class BooleanOption(ConfigOption[bool]):
         if disables:
             group.add_argument(*disables, dest=self.name, help=self.description + formatDefault(self.value), action='store_false', default=None)
 
+    def setFromString(self, string: str):
+        try:
+            self.value = ConfigParser.BOOLEAN_STATES[string.lower()]
+        except KeyError:
+            raise ValueError("Not a boolean: {}".format(string))
+
 class MultiStringOption(ConfigOption[List[str]]):
     def registerArgparse(self, group: ArgumentGroup):
         group.add_argument(*self.options, dest=self.name, type=str, nargs="*", help=self.description, action="append")
-- 
2.43.0


From 0dc82547934d6942b93e7dcc81df5e44ecd90ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:55 +0000
Subject: [PATCH 11/90] fix: keep the case of dictionary keys read from
 configuration files

---
 plasTeX/ConfigManager.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plasTeX/ConfigManager.py b/plasTeX/ConfigManager.py
index 374f213..68ccb92 100644
--- a/plasTeX/ConfigManager.py
+++ b/plasTeX/ConfigManager.py
@@ -280,6 +280,8 @@ class ConfigManager(Dict[str, ConfigSection]):
 
         for filename in filenames:
             data = ConfigParser(interpolation=None)
+            # Keys of dictionary options are case sensitive
+            data.optionxform = str # type: ignore
             data.read(filename)
 
             for section in data.sections():
@@ -290,8 +292,8 @@ class ConfigManager(Dict[str, ConfigSection]):
                 dictObject = next((x for x in self[section].data.values() if isinstance(x, DictOption)), None)
 
                 for key, val in data.items(section):
-                    if key in self[section].data:
-                        self[section].data[key].setFromString(val)
+                    if key.lower() in self[section].data:
+                        self[section].data[key.lower()].setFromString(val)
                     else:
                         if dictObject is not None:
                             dictObject.set(key, val)
-- 
2.43.0


From a12b1eac05be43b5eda365e301f814c25a327f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:51 +0000
Subject: [PATCH 12/90] fix: compare document positions below the innermost
 common ancestor

---
 plasTeX/DOM/__init__.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 4ac8ad8..106b792 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -487,16 +487,18 @@ def _compareDocumentPosition(self, other):
     sparents.reverse()
     oparents.reverse()
 
-    for i, sparent in enumerate(sparents):
-        for j, oparent in enumerate(oparents):
-            if sparent is oparent:
-                s = sparents[i+1]
-                o = oparents[j+1]
-                for item in sparent:
-                   if item is s:
-                       return Node.DOCUMENT_POSITION_FOLLOWING
-                   if item is o:
-                       return Node.DOCUMENT_POSITION_PRECEDING
+    # The innermost common ancestor is the one that lists the two nodes
+    # (or their ancestors) as different children.
+    if sparents[0] is oparents[0]:
+        for sparent, s, o in zip(sparents, sparents[1:], oparents[1:]):
+            if s is o:
+                continue
+            for item in sparent:
+               if item is s:
+                   return Node.DOCUMENT_POSITION_FOLLOWING
+               if item is o:
+                   return Node.DOCUMENT_POSITION_PRECEDING
+            break
 
     return Node.DOCUMENT_POSITION_DISCONNECTED
 
-- 
2.43.0


From 2d3a0981aa4c6051f54b81e154726c7a5da36c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:51 +0000
Subject: [PATCH 13/90] fix: element lookup by name finds every element exactly
 once

---
 plasTeX/DOM/__init__.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 106b792..2625c39 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -1272,7 +1272,10 @@ def _getElementsByTagName(self, tagname):
 
     # Look in attributes dictionary for document fragments as well
     if self.attributes and list(self.attributes.keys()):
-        for item in list(self.attributes.values()):
+        for key, item in list(self.attributes.items()):
+            # The `self` attribute holds the child nodes, which are visited below
+            if key == 'self' and item is self.childNodes:
+                continue
             if getattr(item, 'tagName', None) in tagname:
                  output.append(item)
             if hasattr(item, 'getElementsByTagName'):
@@ -1281,14 +1284,14 @@ def _getElementsByTagName(self, tagname):
                 for e in item:
                     if getattr(e, 'tagName', None) in tagname:
                         output.append(e)
-                    if hasattr(item, 'getElementsByTagName'):
-                        output += item.getElementsByTagName(tagname)
+                    if hasattr(e, 'getElementsByTagName'):
+                        output += e.getElementsByTagName(tagname)
             elif isinstance(item, dict):
                 for e in list(item.values()):
                     if getattr(e, 'tagName', None) in tagname:
                         output.append(e)
-                    if hasattr(item, 'getElementsByTagName'):
-                        output += item.getElementsByTagName(tagname)
+                    if hasattr(e, 'getElementsByTagName'):
+                        output += e.getElementsByTagName(tagname)
 
     # Now look in the child elements
     for item in self:
@@ -1566,7 +1569,7 @@ class Element(Node):
         list of elements
 
         """
-        return _getElementsByTagName(localName)
+        return self.getElementsByTagName(localName)
 
     def hasAttribute(self, name):
         """
-- 
2.43.0


From fdecc66ae6041321eb1ba92de42e8400d7d786f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:51 +0000
Subject: [PATCH 14/90] fix: item assignment and fragment insertion with
 negative indices

---
 plasTeX/DOM/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 2625c39..ae94f40 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -946,6 +946,8 @@ class Node(object):
         """
         if type(newChild) == str:
             newChild = self.ownerDocument.createTextNode(newChild)
+        if i < 0:
+            i = max(0, i + len(self))
         if newChild.nodeType == Node.DOCUMENT_FRAGMENT_NODE:
             for item in newChild:
                 self.insert(i, item, setParent=setParent)
@@ -971,6 +973,8 @@ class Node(object):
         """
         if type(node) == str:
             node = self.ownerDocument.createTextNode(node)
+        if not(isinstance(i, slice)) and i < 0:
+            i += len(self)
         # If a DocumentFragment is being inserted, but it isn't replacing
         # a slice, we need to put each child in manually.
         if node.nodeType == Node.DOCUMENT_FRAGMENT_NODE \
-- 
2.43.0


From 37438197e8ad989c95a0e63f13eeb0bfebbcd9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 15/90] fix: nodes put into a document fragment are its
 children, not those of its parent

---
 plasTeX/DOM/__init__.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index ae94f40..5ff08f1 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -923,10 +923,7 @@ class Node(object):
             self.childNodes.append(newChild)
 
         if setParent:
-            if self.nodeType == self.DOCUMENT_FRAGMENT_NODE:
-                newChild.parentNode = self.parentNode
-            else:
-                newChild.parentNode = self
+            newChild.parentNode = self
         newChild.ownerDocument = self.ownerDocument
         return newChild
 
@@ -955,10 +952,7 @@ class Node(object):
         else:
             self.childNodes.insert(i, newChild)
         if setParent:
-            if self.nodeType == self.DOCUMENT_FRAGMENT_NODE:
-                newChild.parentNode = self.parentNode
-            else:
-                newChild.parentNode = self
+            newChild.parentNode = self
         newChild.ownerDocument = self.ownerDocument
         return newChild
 
-- 
2.43.0


From 1feb350d1c1cfbae4b5dbff2f030ce7e0cef9dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:14 +0000
Subject: [PATCH 16/90] fix: a node taken out of the tree has no parent

---
 plasTeX/DOM/__init__.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 5ff08f1..104901c 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -899,8 +899,10 @@ class Node(object):
         the item removed from the list
 
         """
-        try: return self.childNodes.pop(index)
+        try: child = self.childNodes.pop(index)
         except: raise IndexError('object has no childNodes')
+        child.parentNode = None
+        return child
 
     def append(self, newChild, setParent=True):
         """
@@ -967,20 +969,14 @@ class Node(object):
         """
         if type(node) == str:
             node = self.ownerDocument.createTextNode(node)
-        if not(isinstance(i, slice)) and i < 0:
+        if i < 0:
             i += len(self)
-        # If a DocumentFragment is being inserted, but it isn't replacing
-        # a slice, we need to put each child in manually.
-        if node.nodeType == Node.DOCUMENT_FRAGMENT_NODE \
-           and not(isinstance(i, slice)):
-            for item in node:
-                self.insert(i, item)
-                i += 1
-            self.pop(i)
-
-        else:
-            self.insert(i, node)
-            self.pop(i+1)
+        if not(0 <= i < len(self)):
+            raise IndexError('index out of range')
+        # If a DocumentFragment is being inserted, `insert` puts each
+        # child in manually.
+        self.pop(i)
+        self.insert(i, node)
 
     def extend(self, other, setParent=True):
         """ self += other """
-- 
2.43.0


From 7f59510599c8b0d9e5bd08baa380c7bdb21db83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:30 +0000
Subject: [PATCH 17/90] fix: cloning a node leaves the original untouched and
 copies its attributes

---
 plasTeX/DOM/__init__.py | 42 +++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 104901c..73929ab 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -556,6 +556,16 @@ def xmlstr(obj):
     else:
         return xmlstr(str(obj))
 
+def _cloneValue(value):
+    """ Deep copy of an attribute value """
+    if isinstance(value, Node):
+        return value.cloneNode(True)
+    if type(value) is list:
+        return [_cloneValue(x) for x in value]
+    if type(value) is dict:
+        return {k: _cloneValue(v) for k, v in value.items()}
+    return value
+
 class Node(object):
     """
     Node
@@ -1039,20 +1049,24 @@ class Node(object):
         except: pass
 #       node.nodeValue = self.nodeValue
 #       node.nodeType = self.nodeType
-        node.parentNode = self.parentNode
+        node.parentNode = None
         node.ownerDocument = self.ownerDocument
-        if deep:
-            if node.attributes is not None and self.attributes is not None:
-                node.attributes.update(self.attributes)
-            if self.hasChildNodes():
-                for x in self.childNodes:
-                    node.append(x.cloneNode(deep))
-        else:
-            if node.attributes is not None and self.attributes is not None:
-                node.attributes.update(self.attributes)
-            if self.hasChildNodes():
-                for x in self.childNodes:
-                    node.append(x)
+        children = self.childNodes
+        if node.attributes is not None and self.attributes is not None:
+            # The `self` attribute already contains the child nodes
+            if self.attributes.get('self') is children:
+                children = []
+            if deep:
+                for key, value in self.attributes.items():
+                    node.attributes[key] = _cloneValue(value)
+            else:
+                # The values are shared, they still belong to `self`
+                dict.update(node.attributes, self.attributes)
+        for x in children:
+            if deep:
+                node.append(x.cloneNode(deep))
+            else:
+                node.append(x, setParent=False)
         return node
 
     def normalize(self, charsubs=None):
@@ -1675,7 +1689,7 @@ class CharacterData(str, Node):
     def cloneNode(self, deep=True):
         o = type(self)(self)
         o.ownerDocument = self.ownerDocument
-        o.parentNode = self.parentNode
+        o.parentNode = None
         return o
 
     @property
-- 
2.43.0


From 1462e0cd95dc908dcb49abedad0b2424ab51344d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:58 +0000
Subject: [PATCH 18/90] fix: a fragment stored as an attribute belongs to the
 element that holds it

---
 plasTeX/DOM/__init__.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 73929ab..9b06928 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -406,6 +406,8 @@ class NamedNodeMap(dict):
             return
 
         elif nodeType == Node.DOCUMENT_FRAGMENT_NODE:
+            value.parentNode = parent
+            value.ownerDocument = self.ownerDocument
             for item in value:
                 self._resetPosition(item, parent=value)
 
@@ -468,12 +470,18 @@ def _compareDocumentPosition(self, other):
     if self is other:
         return Node.DOCUMENT_POSITION_IMPLEMENTATION_SPECIFIC
 
+    # A fragment that is the child list of its parent is not a level of its own
+    def isChildList(node):
+        return node.nodeType == Node.DOCUMENT_FRAGMENT_NODE and \
+               node.parentNode is not None and node.parentNode.childNodes is node
+
     sparents = []
     parent = self
     while parent is not None:
         if parent is other:
             return Node.DOCUMENT_POSITION_CONTAINS
-        sparents.append(parent)
+        if not isChildList(parent):
+            sparents.append(parent)
         parent = parent.parentNode
 
     oparents = []
@@ -481,7 +489,8 @@ def _compareDocumentPosition(self, other):
     while parent is not None:
         if parent is self:
             return Node.DOCUMENT_POSITION_CONTAINED_BY
-        oparents.append(parent)
+        if not isChildList(parent):
+            oparents.append(parent)
         parent = parent.parentNode
 
     sparents.reverse()
-- 
2.43.0


From c4c684b3933f18ebacc431f5857ef821106074ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:38 +0000
Subject: [PATCH 19/90] fix: \not in ifthen tests is a prefix operator that
 binds tighter than \and and \or

---
 plasTeX/Packages/ifthen.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Packages/ifthen.py b/plasTeX/Packages/ifthen.py
index 645172b..1cdf518 100644
--- a/plasTeX/Packages/ifthen.py
+++ b/plasTeX/Packages/ifthen.py
@@ -80,8 +80,10 @@ class ifthenelse(Command):
     def prec(self, tok: Union[Token, number]) -> int:
         """Return the operator precedence for the given token"""
         if tok in ['>', '<', '=']:
+            return 3
+        if isinstance(tok, (_not, NOT)):
             return 2
-        if isinstance(tok, (_and, AND, _or, OR, _not, NOT)):
+        if isinstance(tok, (_and, AND, _or, OR)):
             return 1
         return 0
 
@@ -113,6 +115,9 @@ class ifthenelse(Command):
                         break
                     postfix.append(stack.pop())
                 stack.pop()  # (
+            elif isinstance(tok, (_not, NOT)):
+                # A prefix operator waits for its operand
+                stack.append(tok)
             else:
                 # Handle operators and precedence
                 while stack and self.prec(tok) <= self.prec(stack[-1]):
-- 
2.43.0


From 7c8fcc5e2d172ddb8650698c1f6097ff5adb0802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:26 +0000
Subject: [PATCH 20/90] fix: a length is not less or greater than an equal
 length given in another unit

---
 plasTeX/Packages/ifthen.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/plasTeX/Packages/ifthen.py b/plasTeX/Packages/ifthen.py
index 1cdf518..a34fb61 100644
--- a/plasTeX/Packages/ifthen.py
+++ b/plasTeX/Packages/ifthen.py
@@ -257,9 +257,9 @@ class lengthtest(Command):
     """
     Evaluate a length test and return a _boolToken depending on the result
 
-    The < and > relations are implemented directly. However, equals tests if
-    the lengths are just very close. This is to ensure that the result of tests
-    such as "1cm=10mm" match in LaTeX and plasTeX.
+    Lengths that are just very close are considered equal by all relations.
+    This is to ensure that the result of tests such as "1cm=10mm" match in
+    LaTeX and plasTeX.
 
     The workaround is required because LaTeX dimension calculations are
     internally handled by integer arithmetic rather than floating point
@@ -275,9 +275,9 @@ class lengthtest(Command):
         relation = next(tex.itertokens())
         b = tex.readDimen()
         if relation == '<':
-            return [_true() if a < b else _false()]
+            return [_true() if b - a >= 1e-6 else _false()]
         elif relation == '>':
-            return [_true() if a > b else _false()]
+            return [_true() if a - b >= 1e-6 else _false()]
         elif relation == '=':
             return [_true() if abs(a - b) < 1e-6 else _false()]
         raise ValueError('"%s" is not a valid relation' % relation)
-- 
2.43.0


From 009288a1d859aca3e482c95ff123a3889ebf5aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:26 +0000
Subject: [PATCH 21/90] fix: the boolean foo of ifthen is the switch \iffoo

---
 plasTeX/Packages/ifthen.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/plasTeX/Packages/ifthen.py b/plasTeX/Packages/ifthen.py
index a34fb61..42f84a9 100644
--- a/plasTeX/Packages/ifthen.py
+++ b/plasTeX/Packages/ifthen.py
@@ -209,9 +209,9 @@ class boolean(Command):
     args = 'name:str'
 
     def invoke(self, tex):
-        a = self.parse(tex)
-        if a['name'] in self.ownerDocument.context:
-            if self.ownerDocument.context[a['name']].state:
+        name = 'if' + self.parse(tex)['name']
+        if name in self.ownerDocument.context:
+            if self.ownerDocument.context[name].state:
                 return [_true()]
             else:
                 return [_false()]
@@ -288,7 +288,7 @@ class newboolean(Command):
     args = 'name:str'
 
     def invoke(self, tex):
-        self.ownerDocument.context.newif(self.parse(tex)['name'])
+        self.ownerDocument.context.newif('if' + self.parse(tex)['name'])
 
 
 class provideboolean(newboolean):
@@ -301,10 +301,11 @@ class setboolean(Command):
 
     def invoke(self, tex):
         a = self.parse(tex)
-        if a['name'] in self.ownerDocument.context:
+        name = 'if' + a['name']
+        if name in self.ownerDocument.context:
             if a['value'].lower() == 'true':
-                self.ownerDocument.context[a['name']].setTrue()
+                self.ownerDocument.context[name].setTrue()
             elif a['value'].lower() == 'false':
-                self.ownerDocument.context[a['name']].setFalse()
+                self.ownerDocument.context[name].setFalse()
         else:
             raise ValueError("Boolean %s not defined" % a['name'])
-- 
2.43.0


From e0d5effaa283b8de8af432a262488421c57e5842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:52 +0000
Subject: [PATCH 22/90] fix: \( and \) group expressions in the test of
 \whiledo, too

---
 plasTeX/Packages/ifthen.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plasTeX/Packages/ifthen.py b/plasTeX/Packages/ifthen.py
index 42f84a9..d29a6cd 100644
--- a/plasTeX/Packages/ifthen.py
+++ b/plasTeX/Packages/ifthen.py
@@ -193,7 +193,10 @@ class whiledo(ifthenelse):
         a = self.parse(tex)
         tok: List[Token] = []
         while True:
+            # As in ifthenelse, \( and \) group expressions in the test
+            BeginMath.disableMath = EndMath.disableMath = True
             expanded = tex.expandTokens(a['test'], parentNode=self.parentNode)
+            BeginMath.disableMath = EndMath.disableMath = False
             if isinstance(expanded, TeXFragment):
                 test_result = self.evaluate(tex, expanded)
             else:
-- 
2.43.0


From 8569512d3adc728720aff3d8f1aa93545589b3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:39 +0000
Subject: [PATCH 23/90] fix: match delimited macro parameters as TeX does

Multi-token delimiters, delimiters protected by braces, braces around a
whole delimited argument and #{ are handled, and a macro without
parameters has its ## replaced like any other.
---
 plasTeX/Base/TeX/Primitives.py |  27 ---------
 plasTeX/TeX.py                 |  61 +++++++++++++++++++
 plasTeX/__init__.py            | 104 +++++++++++++++------------------
 3 files changed, 108 insertions(+), 84 deletions(-)

diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index 288f62e..a5943ed 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -132,33 +132,6 @@ class DefCommand(Command):
         self.parse(tex)
         a = self.attributes
         deflog.debug('def %s %s %s', a['name'], a['args'], a['definition'])
-        # See if this definiton has nested parameters
-        nested = False
-        aiter = iter(a['args'])
-        for t in aiter:
-            if t.catcode == t.CC_PARAMETER:
-                for t in aiter:
-                    if t.catcode == t.CC_PARAMETER:
-                        nested = True
-                    break
-            if nested:
-                break
-        # If we are nested, get rid of one level of #s
-        if nested:
-            for key in ['args','definition']:
-                params = 0
-                newarg = []
-                for t in a[key]:
-                    if t.catcode == t.CC_PARAMETER:
-                        params += 1
-                        newarg.append(t)
-                    else:
-                        if params > 1:
-                            newarg.pop()
-                        newarg.append(t)
-                        params = 0
-                a[key] = newarg
-
         # nodeName works for both EscapeSequence and Macro. We can end up with
         # a macro in the name position if we used \expandafter, e.g.
         # \expandafter\def\csname foo\endcsname. This works even in the case
diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 31d8073..75cef4d 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -907,6 +907,67 @@ class TeX(object):
             return toks, source
         return None, ''
 
+    def readDelimited(self, delimiter):
+        """
+        Read everything up to a sequence of tokens outside of braces
+
+        Required Arguments:
+        delimiter -- list of tokens that end the argument.  If the last one
+            is a brace, that brace is left in the input.
+
+        Returns:
+        list of tokens in front of the delimiter.  If these are a single
+        group, the braces are removed.
+
+        """
+        brace = delimiter[-1].catcode == Token.CC_BGROUP
+        if brace:
+            delimiter = delimiter[:-1]
+        n = len(delimiter)
+        toks = []
+        level = 0
+        for t in self.itertokens():
+            if brace:
+                if not level and t.catcode == Token.CC_BGROUP and \
+                   toks[len(toks)-n:] == delimiter:
+                    self.pushToken(t)
+                    toks = toks[:len(toks)-n]
+                    break
+                toks.append(t)
+            else:
+                toks.append(t)
+                if not level and toks[-n:] == delimiter:
+                    toks = toks[:-n]
+                    break
+            if t.catcode == Token.CC_BGROUP:
+                level += 1
+            elif t.catcode == Token.CC_EGROUP:
+                level -= 1
+        return self.stripBraces(toks)
+
+    def stripBraces(self, tokens):
+        """
+        Remove the braces of a delimited argument that is a single group
+
+        Required Arguments:
+        tokens -- list of tokens
+
+        Returns:
+        list of tokens
+
+        """
+        level = 0
+        for i, t in enumerate(tokens):
+            if t.catcode == Token.CC_BGROUP:
+                level += 1
+            elif t.catcode == Token.CC_EGROUP:
+                level -= 1
+            if level <= 0:
+                if i > 0 and i == len(tokens) - 1:
+                    return tokens[1:-1]
+                break
+        return tokens
+
     def readInternalType(self, tokens, method):
         """
         Read an internal type from the given tokens
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 9934cc9..b59f1ee 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1168,72 +1168,62 @@ class Definition(Macro):
     definition = None # type: Optional[str]
 
     def invoke(self, tex):
-        if not self.args: return self.definition
+        params = self.readParameters(tex)
 
-        name = macroName(self)
-        argIter = iter(self.args)
-        inparam = False
-        params = [None]
-        for a in argIter:
+        deflog.debug2('expanding %s %s', self.definition, params)
 
-            # Beginning a new parameter
-            if a.catcode == Token.CC_PARAMETER:
+        return expandDef(self.definition, params)
 
-                # Adjacent parameters, just get the next token
-                if inparam:
-                    params.append(tex.readArgument(parentNode=self,
-                                                   name='#%s' % len(params)))
-
-                # Get the parameter number
-                for a in argIter:
-                    # Numbered parameter
-                    if a in string.digits:
-                        inparam = True
-
-                    elif a.catcode == Token.CC_PARAMETER:
-                        continue
-
-                    # Handle #{ case here
-                    elif a.catcode == Token.CC_BGROUP:
-                        param = []
-                        for t in tex.itertokens():
-                            if t.catcode == Token.CC_BGROUP:
-                                tex.pushToken(t)
-                            else:
-                                param.append(t)
-                        inparam = False
-                        params.append(param)
+    def readParameters(self, tex):
+        """
+        Read the arguments that match the parameter text of the definition
 
-                    else:
+        Required Arguments:
+        tex -- the TeX object to read from
+
+        Returns:
+        list of arguments.  The first item is always `None`, so that #1 is at
+        index 1.
+
+        """
+        # The tokens in front of the first parameter, and the number of
+        # each parameter with the tokens that delimit it
+        prefix = []
+        parameters = []
+        delimiter = prefix
+        args = iter(self.args or [])
+        for a in args:
+            if a.catcode == Token.CC_PARAMETER:
+                for a in args:
+                    if a not in string.digits:
                         raise ValueError('Invalid arg string: %s' % ''.join(self.args))
+                    delimiter = []
+                    parameters.append(delimiter)
                     break
-
-            # In a parameter, so get everything up to a token that matches `a`
-            elif inparam:
-                param = []
-                for t in tex.itertokens():
-                    if t == a:
-                        break
-                    param.append(t)
-                inparam = False
-                params.append(param)
-
-            # Not in a parameter, just make sure the token matches
+                # A # in front of the definition: everything up to the
+                # next brace, which isn't removed
+                else:
+                    delimiter.append(BeginGroup('{'))
             else:
-                for t in tex.itertokens():
-                    if t == a:
-                        break
-                    log.info('Arguments of "%s" don\'t match definition. Got "%s" but was expecting "%s" (%s).' % (name, t, a, ''.join(self.args)))
-                    break
-
-        if inparam:
-            params.append(tex.readArgument(parentNode=self,
-                                           name='#%s' % len(params)))
-
-        deflog.debug2('expanding %s %s', self.definition, params)
+                delimiter.append(a)
 
-        return expandDef(self.definition, params)
+        # Make sure that the tokens match
+        for a in prefix:
+            if a.catcode == Token.CC_BGROUP:
+                break
+            for t in tex.itertokens():
+                if t != a:
+                    log.info('Arguments of "%s" don\'t match definition. Got "%s" but was expecting "%s" (%s).' % (macroName(self), t, a, ''.join(self.args)))
+                break
 
+        params = [None]
+        for delimiter in parameters:
+            if delimiter:
+                params.append(tex.readDelimited(delimiter))
+            else:
+                params.append(tex.readArgument(parentNode=self,
+                                               name='#%s' % len(params)))
+        return params
 
 class number(int):
     """ Class used for parameter and count values """
-- 
2.43.0


From 8690dcaf17eeaa8a76ddc4d4311ccbc23fe23640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:39 +0000
Subject: [PATCH 24/90] fix: don't end bracket arguments at brackets inside of
 braces

---
 plasTeX/TeX.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 75cef4d..f5c6f52 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -882,20 +882,23 @@ class TeX(object):
             if t.catcode != Token.CC_ESCAPE and \
                (t == begin or str(t) == str(begin)):
                 level = 1
+                # Delimiters inside of braces don't count
+                braces = 0
                 for t in tokens:
                     source.append(t)
-                    if t.catcode != Token.CC_ESCAPE and \
-                       (t == begin or str(t) == str(begin)):
-                        toks.append(t)
+                    if t.catcode == Token.CC_BGROUP:
+                        braces += 1
+                    elif t.catcode == Token.CC_EGROUP:
+                        braces -= 1
+                    elif braces > 0 or t.catcode == Token.CC_ESCAPE:
+                        pass
+                    elif t == begin or str(t) == str(begin):
                         level += 1
-                    elif t.catcode != Token.CC_ESCAPE and \
-                         (t == end or str(t) == str(end)):
+                    elif t == end or str(t) == str(end):
                         level -= 1
                         if level == 0:
                             break
-                        toks.append(t)
-                    else:
-                        toks.append(t)
+                    toks.append(t)
             else:
                 self.pushToken(t)
                 break
@@ -904,6 +907,7 @@ class TeX(object):
                 source = begin + self.source(toks) + end
             else:
                 source = self.source(source)
+                toks = self.stripBraces(toks)
             return toks, source
         return None, ''
 
-- 
2.43.0


From a2649f89c367ff626a5f60035bbb73d11b371bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:39 +0000
Subject: [PATCH 25/90] fix: resolve \let to a character when it is expanded

The alias was resolved while tokenizing, i.e. in macro definitions and
in names being defined.  \expandafter leaves unexpandable macros alone.
---
 plasTeX/Base/TeX/Primitives.py |  8 ++++++--
 plasTeX/Context.py             | 37 ++++++++++++++++++++++------------
 plasTeX/Tokenizer.py           | 12 -----------
 plasTeX/__init__.py            |  7 +++++++
 4 files changed, 37 insertions(+), 27 deletions(-)

diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index a5943ed..4b836f5 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -1,6 +1,6 @@
 from datetime import datetime
 from plasTeX.Tokenizer import Token, EscapeSequence, Other
-from plasTeX import Macro, Command, CountCommand
+from plasTeX import Macro, Command, CountCommand, LetToken
 from plasTeX import sourceChildren
 from plasTeX.Logging import getLogger
 
@@ -341,10 +341,11 @@ class ifcsname(IfCommand):
 
 class let(Command):
     """ \\let """
+    local = True
     args = 'name:Tok = value:Tok'
     def invoke(self, tex):
         a = self.parse(tex)
-        self.ownerDocument.context.let(a['name'], a['value'])
+        self.ownerDocument.context.let(a['name'], a['value'], local=self.local)
 
 class char(Command):
     """ \\char """
@@ -476,6 +477,9 @@ class expandafter(Command):
             obj = tex.ownerDocument.createElement(aftertok.macroName)
             obj.contextDepth = aftertok.contextDepth
             obj.parentNode = aftertok.parentNode
+            # Leave unexpandable macros alone
+            if type(obj).invoke is Macro.invoke or isinstance(obj, LetToken):
+                return [nexttok, aftertok]
             aftertok = obj
         if isinstance(aftertok, Macro):
             expanded = aftertok.invoke(tex)
diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index aaca1e9..645ecd9 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -36,7 +36,6 @@ class ContextItem(dict):
     def __init__(self, data=None):
         dict.__init__(self, data or {})
         self.categories = None # type: Optional[List[str]]
-        self.lets = {}
         self.obj = None
         self.parent = None
         self.owner = None
@@ -1051,6 +1050,9 @@ class Context(object):
         opt -- string containing the LaTeX code to use in the
             optional argument
 
+        Keyword Arguments:
+        local -- indicates whether this macro is local or global
+
         Examples::
             c.newcommand('bold', 1, r'\\textbf{#1}')
             c.newcommand('foo', 2, r'{\\bf #1#2}', opt='myprefix')
@@ -1058,7 +1060,7 @@ class Context(object):
         """
         # Macro already exists
         if name in list(self.keys()):
-            if not issubclass(self[name], (plasTeX.NewCommand, plasTeX.UnrecognizedMacro, plasTeX.Definition, relax)):
+            if not issubclass(self[name], (plasTeX.NewCommand, plasTeX.UnrecognizedMacro, plasTeX.Definition, plasTeX.LetToken, relax)):
                 if not issubclass(self[name], plasTeX.TheCounter):
                     return
             macrolog.debug('redefining command "%s"', name)
@@ -1164,15 +1166,7 @@ class Context(object):
         else:
             self.addGlobal(name, newclass)
 
-    def get_let(self, command):
-        for context in reversed(self.contexts):
-            try:
-                return context.lets[command]
-            except KeyError:
-                pass
-        return command
-
-    def let(self, dest, source):
+    def let(self, dest, source, local=True):
         """
         Create a \\let
 
@@ -1180,6 +1174,9 @@ class Context(object):
         dest -- the command sequence to create
         source -- the token to set the command sequence equivalent to
 
+        Keyword Arguments:
+        local -- indicates whether this macro is local or global
+
         Examples::
             c.let('bgroup', BeginGroup('{'))
 
@@ -1187,10 +1184,24 @@ class Context(object):
         # Use nodeName instead of macroName to work with Macros as well as
         # EscapeSequence, e.g. when we do
         # \expandafter\let\csname foo\endcsname=1
+        name = dest.nodeName
         if source.catcode == Token.CC_ESCAPE:
-            self.top[dest.nodeName] = self[source.nodeName]
+            value = self[source.nodeName]
+        # The token is always expanded by the macro of that name (e.g.
+        # \let\bgroup={)
+        elif source.macroName == name:
+            value = self[source.macroName]
+        else:
+            value = type(str(name), (plasTeX.LetToken,), {'token':source})
+
+        if local:
+            context = self.top
         else:
-            self.top.lets[dest.nodeName] = source
+            context = self.contexts[0]
+            # Remove the local macros which would hide it
+            for item in self.contexts[1:]:
+                dict.pop(item, name, None)
+        context[name] = value
 
     def chardef(self, name, num):
         """
diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index ad44934..e2be271 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -465,17 +465,6 @@ class Tokenizer(object):
 
                 else: token = EscapeSequence()
 
-                # Check for any \let aliases
-                token = context.get_let(token)
-
-                # TODO: This action should be generalized so that the
-                #       tokens are processed recursively
-                if token is not token and token.catcode == CC_COMMENT:
-                    self.readline()
-                    self.lineNumber += 1
-                    self.state = STATE_N
-                    continue
-
             elif code == CC_COMMENT:
                 if char != '\n':
                     self.readline()
@@ -485,7 +474,6 @@ class Tokenizer(object):
 
             elif code == CC_ACTIVE:
                 token = EscapeSequence('active::%s' % char)
-                token = context.get_let(token)
                 self.state = STATE_M
 
             else:
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index b59f1ee..024221d 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1093,6 +1093,13 @@ class IfFalse(Macro):
         type(self).ifclass.setFalse()
         return []
 
+class LetToken(Macro):
+    """ Base class for macros that are \\let to a token """
+    token = None
+
+    def invoke(self, tex):
+        return [type(self.token)(self.token)]
+
 def expandDef(definition, params):
     # Walk through the definition and expand parameters
     if not definition:
-- 
2.43.0


From 3d0313be49c29511e58bd9afab9b2acce0a551dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:39 +0000
Subject: [PATCH 26/90] fix: make \newcommand and \newenvironment local to
 their group

---
 plasTeX/Base/LaTeX/Definitions.py |  4 ++--
 plasTeX/Context.py                | 21 ++++++++++++++++-----
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Definitions.py b/plasTeX/Base/LaTeX/Definitions.py
index 75380ee..a9dcbd8 100644
--- a/plasTeX/Base/LaTeX/Definitions.py
+++ b/plasTeX/Base/LaTeX/Definitions.py
@@ -19,7 +19,7 @@ class newcommand(Command):
         self.parse(tex)
         a = self.attributes
         args = (a['name'], a['nargs'], a['definition'])
-        kwargs = {'opt':a['opt']}
+        kwargs = {'opt':a['opt'], 'local':True}
         deflog.debug('command %s %s %s', *args)
         self.ownerDocument.context.newcommand(*args, **kwargs)
 
@@ -46,7 +46,7 @@ class newenvironment(Command):
         self.parse(tex)
         a = self.attributes
         args = (a['name'], a['nargs'], a['begin'], a['end'])
-        kwargs = {'opt':a['opt']}
+        kwargs = {'opt':a['opt'], 'local':True}
         deflog.debug('environment %s %s %s', *args)
         self.ownerDocument.context.newenvironment(*args, **kwargs)
 
diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 645ecd9..4925d47 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -1039,7 +1039,7 @@ class Context(object):
         newclass = type(falsename, (plasTeX.IfFalse,), {'ifclass':ifclass})
         self.addGlobal(falsename, newclass)
 
-    def newcommand(self, name, nargs=0, definition=None, opt=None):
+    def newcommand(self, name, nargs=0, definition=None, opt=None, local=False):
         """
         Create a \\newcommand
 
@@ -1079,9 +1079,12 @@ class Context(object):
         newclass = type(name, (plasTeX.NewCommand,),
                        {'nargs':nargs, 'opt':opt, 'definition':definition})
 
-        self.addGlobal(name, newclass)
+        if local:
+            self.addLocal(name, newclass)
+        else:
+            self.addGlobal(name, newclass)
 
-    def newenvironment(self, name, nargs=0, def_before=None, def_after=None, opt=None):
+    def newenvironment(self, name, nargs=0, def_before=None, def_after=None, opt=None, local=False):
         """
         Create a \\newenvironment
 
@@ -1095,6 +1098,9 @@ class Context(object):
         opt -- string containing the LaTeX code to use in the
             optional argument
 
+        Keyword Arguments:
+        local -- indicates whether this environment is local or global
+
         Examples::
             c.newenvironment('mylist', 0, [r'\\begin{itemize}', r'\\end{itemize}'])
 
@@ -1120,15 +1126,20 @@ class Context(object):
 
         macrolog.debug('creating newenvironment %s', name)
 
+        if local:
+            add = self.addLocal
+        else:
+            add = self.addGlobal
+
         # Begin portion
         newclass = type(name, (plasTeX.NewCommand,),
                        {'nargs':nargs, 'opt':opt, 'definition':def_before})
-        self.addGlobal(name, newclass)
+        add(name, newclass)
 
         # End portion
         newclass = type('end' + name, (plasTeX.NewCommand,),
                        {'nargs':0, 'opt':None, 'definition':def_after})
-        self.addGlobal('end' + name, newclass)
+        add('end' + name, newclass)
 
     def newdef(self, name, args=None, definition=None, local=True):
         """
-- 
2.43.0


From b0bd91e6ff8f4da72f58d04888c9d6d331b20f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:39 +0000
Subject: [PATCH 27/90] fix: let global definitions replace local ones and
 honour \global

---
 plasTeX/Base/TeX/Primitives.py | 19 +++++++++++++++++++
 plasTeX/Context.py             |  4 ++++
 2 files changed, 23 insertions(+)

diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index 4b836f5..bf03563 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -18,6 +18,25 @@ class protect(Command):
 
 class global_(Command):
     macroName = 'global'
+    def invoke(self, tex):
+        # Skip over the other prefixes
+        for t in tex.itertokens():
+            if t.catcode != Token.CC_SPACE and \
+               t.macroName not in ['global', 'long', 'outer']:
+                tex.pushToken(t)
+                break
+        else:
+            return []
+        if isinstance(t, EscapeSequence):
+            obj = self.ownerDocument.createElement(t.macroName)
+            if isinstance(obj, (DefCommand, let)):
+                next(tex.itertokens())
+                obj.contextDepth = t.contextDepth
+                obj.parentNode = t.parentNode
+                obj.local = False
+                obj.invoke(tex)
+                return [obj]
+        return []
 
 class par(Command):
     """ Paragraph """
diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 4925d47..b84c0cd 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -803,6 +803,10 @@ class Context(object):
         elif not ismacro(value):
             raise ValueError('"%s" does not implement the macro interface' % key)
 
+        # Remove the local macros which would hide it
+        for context in self.contexts[1:]:
+            dict.pop(context, macroName(value), None)
+
         self.contexts[0][macroName(value)] = value
 
     __setitem__ = addGlobal
-- 
2.43.0


From 85541e7d445dcab9c8480daffb9cbb97875d2a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:23 +0000
Subject: [PATCH 28/90] fix: \expandafter in front of a macro that expands to
 nothing

---
 plasTeX/Base/TeX/Primitives.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index bf03563..988d5b5 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -503,7 +503,8 @@ class expandafter(Command):
         if isinstance(aftertok, Macro):
             expanded = aftertok.invoke(tex)
 
-        expanded = expanded or [aftertok]
+        if expanded is None:
+            expanded = [aftertok]
 
         return [nexttok] + expanded
 
-- 
2.43.0


From 433759b71709d96c8a17850390c9033ede16c933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:47 +0000
Subject: [PATCH 29/90] fix: process the portions of a conditional as TeX does
 instead of collecting them in advance

---
 plasTeX/Base/TeX/Primitives.py |  74 ++++++++--------
 plasTeX/Packages/ifthen.py     |   7 +-
 plasTeX/TeX.py                 | 150 +++++++++++++++++++++++++--------
 plasTeX/__init__.py            |  15 ++++
 4 files changed, 174 insertions(+), 72 deletions(-)

diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index 988d5b5..7d6d7db 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -172,7 +172,23 @@ class gdef(DefCommand):
     local = False
 
 class IfCommand(Command):
-    pass
+    conditional = 'if'
+    expandable = True
+
+    def compare(self, tex, read):
+        """ Process the portion selected by the relation of two values """
+        with tex.readingTest() as level:
+            a = read()
+            relation = next((t for t in tex if t.catcode != Token.CC_SPACE), None)
+            b = read()
+        if relation == '<':
+            tex.processIfContent(a < b, level=level)
+        elif relation == '>':
+            tex.processIfContent(a > b, level=level)
+        elif relation == '=':
+            tex.processIfContent(a == b, level=level)
+        else:
+            raise ValueError('"%s" is not a valid relation' % relation)
 
 class if_(IfCommand):
     """ \\if """
@@ -187,53 +203,37 @@ class if_(IfCommand):
 
 class else_(Command):
     macroName = 'else'
+    conditional = 'else'
+    expandable = True
+    def invoke(self, tex):
+        return tex.endIfContent(self.conditional)
 
-class fi(Command):
-    pass
+class or_(else_):
+    macroName = 'or'
+    conditional = 'or'
+
+class fi(else_):
+    macroName = None
+    conditional = 'fi'
 
 class ifnum(IfCommand):
     """ Compare two integers """
-    args = 'a:Number rel:Tok'
     def invoke(self, tex):
-        self.parse(tex)
-        attrs = self.attributes
-        attrs['b'] = tex.readNumber()
-        relation = attrs['rel']
-        a, b = attrs['a'], attrs['b']
-        if relation == '<':
-            tex.processIfContent(a < b)
-            return []
-        elif relation == '>':
-            tex.processIfContent(a > b)
-            return []
-        elif relation == '=':
-            tex.processIfContent(a == b)
-            return []
-        raise ValueError('"%s" is not a valid relation' % relation)
+        self.compare(tex, lambda: tex.readArgument(type='Number'))
+        return []
 
 class ifdim(IfCommand):
     """ Compare two dimensions """
-    args = 'a:Dimen rel:Tok b:Dimen'
     def invoke(self, tex):
-        self.parse(tex)
-        attrs = self.attributes
-        relation = attrs['rel']
-        a, b = attrs['a'], attrs['b']
-        if relation == '<':
-            tex.processIfContent(a < b)
-            return []
-        elif relation == '>':
-            tex.processIfContent(a > b)
-            return []
-        elif relation == '=':
-            tex.processIfContent(a == b)
-            return []
-        raise ValueError('"%s" is not a valid relation' % relation)
+        self.compare(tex, lambda: tex.readArgument(type='Dimen'))
+        return []
 
 class ifodd(IfCommand):
     """ Test for odd integer """
     def invoke(self, tex):
-        tex.processIfContent(bool(tex.readNumber() % 2))
+        with tex.readingTest() as level:
+            num = tex.readArgument(type='Number')
+        tex.processIfContent(bool(num % 2), level=level)
         return []
 
 class ifvmode(IfCommand):
@@ -334,7 +334,9 @@ class pdftrue(Command): pass
 class ifcase(IfCommand):
     """ Cases """
     def invoke(self, tex):
-        tex.processIfContent(tex.readNumber())
+        with tex.readingTest() as level:
+            num = tex.readArgument(type='Number')
+        tex.processIfContent(int(num), level=level)
         return []
 
 class ifdefined(IfCommand):
diff --git a/plasTeX/Packages/ifthen.py b/plasTeX/Packages/ifthen.py
index d29a6cd..65b2313 100644
--- a/plasTeX/Packages/ifthen.py
+++ b/plasTeX/Packages/ifthen.py
@@ -5,7 +5,8 @@ A Python implementation of the ifthen package.
 """
 
 from plasTeX import Command, TeXFragment, number
-from plasTeX.Tokenizer import Token, Space
+from plasTeX.Tokenizer import Token, EscapeSequence, Space
+from plasTeX.Base.TeX.Primitives import or_
 from plasTeX.Base.LaTeX.Math import BeginMath, EndMath
 from typing import Union, List
 
@@ -31,8 +32,8 @@ class _not(Command):
     macroName = 'not'
 
 
-class _or(Command):
-    macroName = 'or'
+class _or(or_):
+    pass
 
 
 class NOT(Command):
diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index f5c6f52..08c3c4a 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -71,6 +71,11 @@ class TeX(object):
         # Input source stack
         self.inputs = []
 
+        # Conditionals that haven't ended.  Each item is the list of macros
+        # which end the current portion (in addition to \fi), or `None' while
+        # the test is being read.
+        self.conditionals = []
+
         # Auxiliary files loaded
         self.auxFiles = []
 
@@ -298,6 +303,9 @@ class TeX(object):
             try:
                 token = next()
             except StopIteration:
+                if self.toplevel and self.conditionals:
+                    log.warning(r'\end occurred when \if was incomplete')
+                    self.conditionals = []
                 return
 
             # Token is null, ignore it
@@ -528,61 +536,137 @@ class TeX(object):
                           if getattr(x, 'catcode', Token.CC_OTHER)
                              not in grouptokens])).strip()
 
-    def processIfContent(self, which, debug=False):
+    def processIfContent(self, which, debug=False, level=None):
         """
         Process the requested portion of the `if' block
 
+        Everything in front of the requested portion is skipped.  The rest
+        of the block is skipped when the command that ends the portion is
+        invoked.
+
         Required Arguments:
         which -- the case to return.  If this is a boolean, a value of
             `True' will return the first part of the `if' block.  If it
             is `False', it will return the `else' portion.  If this is
             an integer, the `case' matching this integer will be returned.
 
+        Keyword Arguments:
+        level -- the number of conditionals that this one is nested in.  The
+            test of a conditional can run into other ones that follow it.
+
+        See Also:
+        self.endIfContent()
+
         """
-        # Since the true content always comes first, we need to set
-        # True to case 0 and False to case 1.
-        elsefound = False
         if isinstance(which, bool):
-            if which: which = 0
-            else: which = 1
+            delimiters = ['else']
+            which = 0 if which else 1
+        else:
+            delimiters = ['or', 'else']
 
-        cases = [[]]
-        nesting = 0
-        correctly_terminated = False
-        iterator = self.itertokens()
+        if level is None:
+            level = len(self.conditionals)
+
+        while which != 0:
+            nesting = len(self.conditionals) - level
+            del self.conditionals[level:]
+            name = self.skipIfContent(delimiters, nesting)
+            if name == 'fi':
+                return
+            if name == 'else':
+                delimiters = []
+                break
+            which -= 1
+
+        self.conditionals.insert(level, delimiters)
 
+    def skipIfContent(self, delimiters, nesting=0):
+        """
+        Skip tokens up to the end of the current portion of an `if' block
+
+        Required Arguments:
+        delimiters -- names of the macros which end the portion, in addition
+            to `fi'
+
+        Keyword Arguments:
+        nesting -- number of conditionals in the portion that have begun
+
+        Returns:
+        name of the macro that was found
+
+        """
+        get = self.ownerDocument.context.top.get
+        iterator = self.itertokens()
         for t in iterator:
-            name = getattr(t, 'macroName', '') or ''
-            if name == 'newif':
-                cases[-1].append(t)
-                cases[-1].append(next(iterator))
+            if t.nodeType == Macro.ELEMENT_NODE or t.macroName is None:
+                continue
+            macro = get(t.macroName)
+            if t.macroName == 'newif':
+                next(iterator, None)
                 continue
-            elif name.startswith('if'):
-                cases[-1].append(t)
+            # Assume that unknown macros called \if... are conditionals
+            elif macro is None or issubclass(macro, plasTeX.UnrecognizedMacro):
+                if t.macroName.startswith('if'):
+                    nesting += 1
+                continue
+            name = macro.conditional
+            if name == 'if':
                 nesting += 1
             elif name == 'fi':
                 if not nesting:
-                    correctly_terminated = True
-                    break
-                cases[-1].append(t)
+                    return name
                 nesting -= 1
-            elif not(nesting) and name == 'else':
-                cases.append([])
-                continue
-            elif not(nesting) and name == 'or':
-                cases.append([])
-                continue
-            else:
-                cases[-1].append(t)
+            elif not(nesting) and name in delimiters:
+                return name
+        log.warning(r'\end occurred when \if was incomplete')
+        return 'fi'
+
+    def endIfContent(self, name):
+        """
+        Handle a macro that ends a portion of an `if' block
+
+        Required Arguments:
+        name -- `or', `else', or `fi'
 
-        if not correctly_terminated:
-            log.warning(r'\end occurred when \if was incomplete')
+        Returns:
+        list of tokens that replace the macro, or `None' if there is no `if'
+        block that it belongs to
 
-        # else case for ifs without elses
-        cases.append([])
+        """
+        if not self.conditionals:
+            return None
 
-        # Push if-selected tokens back into tokenizer
-        self.pushTokens(cases[which])
+        delimiters = self.conditionals[-1]
+
+        # The number in the test of the conditional is still being read,
+        # this ends it.
+        if delimiters is None:
+            return [EscapeSequence('relax'), EscapeSequence(name)]
+
+        if name == 'fi':
+            self.conditionals.pop()
+        elif name in delimiters:
+            self.conditionals.pop()
+            self.skipIfContent([])
+        else:
+            return None
+        return []
+
+    @contextlib.contextmanager
+    def readingTest(self):
+        """
+        The test of a conditional is read in the body of this context
+
+        Returns:
+        number of conditionals that the conditional is nested in
+
+        """
+        level = len(self.conditionals)
+        self.conditionals.append(None)
+        try:
+            yield level
+        finally:
+            del self.conditionals[level]
 
     def readArgument(self, *args, **kwargs):
         """
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 024221d..93436fc 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -124,6 +124,12 @@ class Macro(Element):
     nodeType = Node.ELEMENT_NODE
     nodeValue = None
 
+    # Role of this macro in conditionals: `if', `or', `else', or `fi'
+    conditional = None # type: Optional[str]
+
+    # Can this macro be expanded while a number is being read?
+    expandable = False
+
     # Counter associated with this macro
     counter = None # type: Optional[str]
 
@@ -1060,9 +1066,18 @@ class UnrecognizedMacro(Macro):
             return True
         return super(UnrecognizedMacro, self).__eq__(other)
 
+    def invoke(self, tex):
+        # Assume that unknown macros called \if... are conditionals, so that
+        # their \else and \fi don't end another one
+        if self.macroMode == Macro.MODE_NONE and self.tagName.startswith('if'):
+            tex.conditionals.append([])
+        return super(UnrecognizedMacro, self).invoke(tex)
+
 class NewIf(Macro):
     """ Base class for all generated \\newifs """
 
+    conditional = 'if'
+    expandable = True
     state = False
 
     def invoke(self, tex):
-- 
2.43.0


From da3832183094afb1a00e3c53c26d76157f44d784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:47 +0000
Subject: [PATCH 30/90] fix: compare meanings in \ifx, \ifdefined and \ifcsname

---
 plasTeX/Base/LaTeX/Definitions.py |  2 +-
 plasTeX/Base/TeX/Primitives.py    | 81 +++++++++++++++++++------------
 plasTeX/Context.py                | 51 +++++++++++++++++--
 plasTeX/Packages/ifthen.py        | 10 ++--
 plasTeX/__init__.py               | 19 +++-----
 5 files changed, 110 insertions(+), 53 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Definitions.py b/plasTeX/Base/LaTeX/Definitions.py
index a9dcbd8..b470924 100644
--- a/plasTeX/Base/LaTeX/Definitions.py
+++ b/plasTeX/Base/LaTeX/Definitions.py
@@ -19,7 +19,7 @@ class newcommand(Command):
         self.parse(tex)
         a = self.attributes
         args = (a['name'], a['nargs'], a['definition'])
-        kwargs = {'opt':a['opt'], 'local':True}
+        kwargs = {'opt':a['opt'], 'local':True, 'long':not a['*modifier*']}
         deflog.debug('command %s %s %s', *args)
         self.ownerDocument.context.newcommand(*args, **kwargs)
 
diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index 7d6d7db..006f75a 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -1,4 +1,5 @@
 from datetime import datetime
+from typing import Dict
 from plasTeX.Tokenizer import Token, EscapeSequence, Other
 from plasTeX import Macro, Command, CountCommand, LetToken
 from plasTeX import sourceChildren
@@ -16,28 +17,44 @@ class relax(Command):
 class protect(Command):
     pass
 
-class global_(Command):
-    macroName = 'global'
+class Prefix(Command):
+    """ Prefix of an assignment """
+    attribute = {} # type: Dict[str, bool]
     def invoke(self, tex):
-        # Skip over the other prefixes
+        attributes = dict(self.attribute)
+        # Collect the other prefixes
         for t in tex.itertokens():
-            if t.catcode != Token.CC_SPACE and \
-               t.macroName not in ['global', 'long', 'outer']:
-                tex.pushToken(t)
-                break
+            if t.catcode == Token.CC_SPACE:
+                continue
+            obj = None
+            if isinstance(t, EscapeSequence):
+                obj = self.ownerDocument.createElement(t.macroName)
+            if isinstance(obj, Prefix):
+                attributes.update(obj.attribute)
+                continue
+            break
         else:
             return []
-        if isinstance(t, EscapeSequence):
-            obj = self.ownerDocument.createElement(t.macroName)
-            if isinstance(obj, (DefCommand, let)):
-                next(tex.itertokens())
-                obj.contextDepth = t.contextDepth
-                obj.parentNode = t.parentNode
-                obj.local = False
-                obj.invoke(tex)
-                return [obj]
+        if isinstance(obj, (DefCommand, let)):
+            obj.contextDepth = t.contextDepth
+            obj.parentNode = t.parentNode
+            for key, value in attributes.items():
+                setattr(obj, key, value)
+            obj.invoke(tex)
+            return [obj]
+        tex.pushToken(t)
         return []
 
+class global_(Prefix):
+    macroName = 'global'
+    attribute = {'local':False}
+
+class long(Prefix):
+    attribute = {'long':True}
+
+class outer(Prefix):
+    pass
+
 class par(Command):
     """ Paragraph """
     level = Command.PAR_LEVEL
@@ -146,6 +163,7 @@ class SubScript(Command):
 class DefCommand(Command):
     """ TeX's \\def command """
     local = True
+    long = False
     args = 'name:Tok args:Args definition:nox'
     def invoke(self, tex):
         self.parse(tex)
@@ -157,7 +175,7 @@ class DefCommand(Command):
         # where \foo is not yet defined, and becomes an unrecognized macro.
         name = a['name'].nodeName
 
-        self.ownerDocument.context.newdef(name, a['args'], a['definition'], local=self.local)
+        self.ownerDocument.context.newdef(name, a['args'], a['definition'], local=self.local, long=self.long)
 
 class def_(DefCommand):
     macroName = 'def'
@@ -271,11 +289,12 @@ class ifcat(IfCommand):
 
 class ifx(IfCommand):
     """ Test if tokens agree """
-    args = 'a:XTok b:XTok'
     def invoke(self, tex):
-        self.parse(tex)
-        a = self.attributes
-        tex.processIfContent(a['a'] == a['b'])
+        meaning = self.ownerDocument.context.meaning
+        tokens = tex.itertokens()
+        a = meaning(next(tokens))
+        b = meaning(next(tokens))
+        tex.processIfContent(a == b)
         return []
 
 class ifvoid(IfCommand):
@@ -308,6 +327,7 @@ class ifeof(IfCommand):
 
 class iftrue(IfCommand):
     """ Always true """
+    state = True
     def invoke(self, tex):
         tex.processIfContent(True)
         return []
@@ -322,6 +342,7 @@ class htmltrue(Command): pass
 
 class iffalse(IfCommand):
     """ Always false """
+    state = False
     def invoke(self, tex):
         tex.processIfContent(False)
         return []
@@ -343,9 +364,8 @@ class ifdefined(IfCommand):
     args = 'name:Tok'
     def invoke(self, tex):
         a = self.parse(tex)
-        n = str(a['name'].macroName)
-        b = n in self.ownerDocument.context
-        tex.processIfContent(b)
+        meaning = self.ownerDocument.context.meaning(a['name'])
+        tex.processIfContent(meaning is not None)
         return []
 
 class ifcsname(IfCommand):
@@ -355,9 +375,8 @@ class ifcsname(IfCommand):
             if t.nodeType == Command.ELEMENT_NODE and t.nodeName == 'endcsname':
                 break
             name.append(t)
-        n = ''.join(name)
-        b = n in self.ownerDocument.context
-        tex.processIfContent(b)
+        meaning = self.ownerDocument.context.meaning(EscapeSequence(''.join(name)))
+        tex.processIfContent(meaning is not None)
         return []
 
 class let(Command):
@@ -413,7 +432,11 @@ class csname(Command):
             if t.nodeType == Command.ELEMENT_NODE and t.nodeName == 'endcsname':
                 break
             name.append(t)
-        return [EscapeSequence(''.join(name))]
+        token = EscapeSequence(''.join(name))
+        context = self.ownerDocument.context
+        if context.meaning(token) is None:
+            context.top[token.macroName] = relax
+        return [token]
 
 class endcsname(Command):
     """ \\endcsname """
@@ -474,8 +497,6 @@ class jobname(Command):
     def invoke(self, tex):
         self.str = tex.jobname
 
-class long(Command): pass
-
 class undefined(Command): pass
 
 class undefined_(Command):
diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index b84c0cd..6b1c001 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -13,7 +13,7 @@ from plasTeX import ismacro, macroName
 from plasTeX.TeX import TeX
 from plasTeX.Logging import getLogger
 from plasTeX.Base.TeX.Primitives import relax
-from plasTeX.Tokenizer import Tokenizer, Token, DEFAULT_CATEGORIES, VERBATIM_CATEGORIES
+from plasTeX.Tokenizer import Tokenizer, Token, Parameter, Other, DEFAULT_CATEGORIES, VERBATIM_CATEGORIES
 import plasTeX
 import plasTeX.Packages
 
@@ -639,6 +639,41 @@ class Context(object):
         self[key] = newclass = type(key, (plasTeX.UnrecognizedMacro,), {})
         return newclass
 
+    def meaning(self, token):
+        """
+        Get the current meaning of a token
+
+        Required Arguments:
+        token -- the token to look up
+
+        Returns:
+        an object that is equal for two tokens that \\ifx considers to agree.
+        The meaning of an undefined macro is `None'.
+
+        """
+        if token.macroName is None:
+            return (token.catcode, str(token))
+        macro = self.top.get(token.macroName)
+        if macro is None or issubclass(macro, plasTeX.UnrecognizedMacro) or \
+           macroName(macro) in ['undefined', '@undefined']:
+            return None
+        if issubclass(macro, plasTeX.LetToken):
+            return self.meaning(macro.token)
+        if issubclass(macro, plasTeX.NewIf):
+            return self['iftrue' if macro.state else 'iffalse']
+        if issubclass(macro, plasTeX.Definition):
+            return (macro.long, list(macro.args or []), list(macro.definition or []))
+        if macroName(macro) == 'empty':
+            return (False, [], [])
+        if issubclass(macro, plasTeX.NewCommand):
+            if macro.opt is not None:
+                return macro
+            args = []
+            for i in range(macro.nargs):
+                args.extend([Parameter('#'), Other(str(i+1))])
+            return (macro.long, args, list(macro.definition or []))
+        return macro
+
     def push(self, context=None):
         """
         Add a new context to the stack
@@ -1043,7 +1078,7 @@ class Context(object):
         newclass = type(falsename, (plasTeX.IfFalse,), {'ifclass':ifclass})
         self.addGlobal(falsename, newclass)
 
-    def newcommand(self, name, nargs=0, definition=None, opt=None, local=False):
+    def newcommand(self, name, nargs=0, definition=None, opt=None, local=False, long=True):
         """
         Create a \\newcommand
 
@@ -1056,6 +1091,7 @@ class Context(object):
 
         Keyword Arguments:
         local -- indicates whether this macro is local or global
+        long -- indicates whether arguments may contain paragraphs
 
         Examples::
             c.newcommand('bold', 1, r'\\textbf{#1}')
@@ -1081,7 +1117,8 @@ class Context(object):
 
         macrolog.debug('creating newcommand %s', name)
         newclass = type(name, (plasTeX.NewCommand,),
-                       {'nargs':nargs, 'opt':opt, 'definition':definition})
+                       {'nargs':nargs, 'opt':opt, 'definition':definition,
+                        'long':long})
 
         if local:
             self.addLocal(name, newclass)
@@ -1145,7 +1182,7 @@ class Context(object):
                        {'nargs':0, 'opt':None, 'definition':def_after})
         add('end' + name, newclass)
 
-    def newdef(self, name, args=None, definition=None, local=True):
+    def newdef(self, name, args=None, definition=None, local=True, long=False):
         """
         Create a \\def
 
@@ -1156,6 +1193,7 @@ class Context(object):
 
         Keyword Arguments:
         local -- indicates whether this macro is local or global
+        long -- indicates whether arguments may contain paragraphs
 
         Examples::
             c.newdef('bold', '#1', '{\\bf #1}')
@@ -1174,7 +1212,7 @@ class Context(object):
 
         macrolog.debug('creating def %s', name)
         newclass = type(name, (plasTeX.Definition,),
-                       {'args':args, 'definition':definition})
+                       {'args':args, 'definition':definition, 'long':long})
 
         if local:
             self.addLocal(name, newclass)
@@ -1202,6 +1240,9 @@ class Context(object):
         name = dest.nodeName
         if source.catcode == Token.CC_ESCAPE:
             value = self[source.nodeName]
+            # The state of a switch is what it is now
+            if issubclass(value, plasTeX.NewIf):
+                value = self['iftrue' if value.state else 'iffalse']
         # The token is always expanded by the macro of that name (e.g.
         # \let\bgroup={)
         elif source.macroName == name:
diff --git a/plasTeX/Packages/ifthen.py b/plasTeX/Packages/ifthen.py
index 65b2313..4843234 100644
--- a/plasTeX/Packages/ifthen.py
+++ b/plasTeX/Packages/ifthen.py
@@ -251,7 +251,8 @@ class isundefined(Command):
 
     def invoke(self, tex):
         a = self.parse(tex)
-        if a['name'] in self.ownerDocument.context:
+        token = EscapeSequence(a['name'])
+        if self.ownerDocument.context.meaning(token) is not None:
             return [_false()]
         else:
             return [_true()]
@@ -307,9 +308,8 @@ class setboolean(Command):
         a = self.parse(tex)
         name = 'if' + a['name']
         if name in self.ownerDocument.context:
-            if a['value'].lower() == 'true':
-                self.ownerDocument.context[name].setTrue()
-            elif a['value'].lower() == 'false':
-                self.ownerDocument.context[name].setFalse()
+            value = a['value'].lower()
+            if value in ['true', 'false']:
+                self.ownerDocument.createElement(a['name'] + value).invoke(tex)
         else:
             raise ValueError("Boolean %s not defined" % a['name'])
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 93436fc..a6b3200 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1100,12 +1100,14 @@ class IfTrue(Macro):
     """ Base class for all generated \\iftrues """
     def invoke(self, tex):
         type(self).ifclass.setTrue()
+        self.ownerDocument.context[macroName(type(self).ifclass)] = type(self).ifclass
         return []
 
 class IfFalse(Macro):
     """ Base class for all generated \\iffalses """
     def invoke(self, tex):
         type(self).ifclass.setFalse()
+        self.ownerDocument.context[macroName(type(self).ifclass)] = type(self).ifclass
         return []
 
 class LetToken(Macro):
@@ -1121,7 +1123,6 @@ def expandDef(definition, params):
         return []
     output = []
     definition = iter(definition)
-    previous = ''
     for t in definition:
         # Expand parameters
         if t.catcode == Token.CC_PARAMETER:
@@ -1131,21 +1132,11 @@ def expandDef(definition, params):
                     output.append(t)
                 else:
                     if int(t) < len(params) and params[int(t)] is not None:
-                        # This is a pretty bad hack, but `ifx' commands
-                        # need an argument to also be a token.  So we
-                        # wrap them in a group here and let the
-                        # TeX parser convert the group to a token.
-                        if previous == 'ifx':
-                            output.append(BeginGroup(' '))
-                            output.extend(params[int(t)])
-                            output.append(EndGroup(' '))
-                        else:
-                            output.extend(params[int(t)])
+                        output.extend(params[int(t)])
                 break
         # Just append other tokens to the output
         else:
             output.append(t)
-        previous = t
     return output
 
 class NewCommand(Macro):
@@ -1153,6 +1144,8 @@ class NewCommand(Macro):
     nargs = 0
     opt = None
     definition = None
+    expandable = True
+    long = True
 
     def invoke(self, tex):
         if self.macroMode == Macro.MODE_END:
@@ -1188,6 +1181,8 @@ class Definition(Macro):
     """ Superclass for all \\def-type commands """
     args = '' # type: str
     definition = None # type: Optional[str]
+    expandable = True
+    long = False
 
     def invoke(self, tex):
         params = self.readParameters(tex)
-- 
2.43.0


From d839241314dca0b681eb54675cb418f4337f62a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:47 +0000
Subject: [PATCH 31/90] fix: leave the commands behind a number alone while the
 number is read

---
 plasTeX/Base/LaTeX/Numbering.py |  5 ++++
 plasTeX/Base/TeX/Numbers.py     |  2 ++
 plasTeX/Base/TeX/Primitives.py  |  3 +++
 plasTeX/TeX.py                  | 47 ++++++++++++++++++++++++++-------
 plasTeX/__init__.py             |  1 +
 5 files changed, 49 insertions(+), 9 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Numbering.py b/plasTeX/Base/LaTeX/Numbering.py
index 2de5263..fc6ed13 100644
--- a/plasTeX/Base/LaTeX/Numbering.py
+++ b/plasTeX/Base/LaTeX/Numbering.py
@@ -25,6 +25,7 @@ class addtocounter(Command):
         self.ownerDocument.context.counters[a['name']].addtocounter(a['value'])
 
 class value(Command):
+    expandable = True
     args = 'name:str'
     def invoke(self, tex):
         a = self.parse(tex)
@@ -32,6 +33,7 @@ class value(Command):
 
 class arabic(Command):
     """ Return arabic representation """
+    expandable = True
     args = 'name:str'
     def invoke(self, tex):
         a = self.parse(tex)
@@ -39,6 +41,7 @@ class arabic(Command):
 
 class Roman(Command):
     """ Return uppercase roman representation """
+    expandable = True
     args = 'name:str'
     def invoke(self, tex):
         a = self.parse(tex)
@@ -52,6 +55,7 @@ class roman(Roman):
 
 class Alph(Command):
     """ Return the uppercase letter representation """
+    expandable = True
     args = 'name:str'
     def invoke(self, tex):
         a = self.parse(tex)
@@ -65,6 +69,7 @@ class alph(Alph):
 
 class fnsymbol(Command):
     """ Return the symbol representation """
+    expandable = True
     args = 'name:str'
     def invoke(self, tex):
         a = self.parse(tex)
diff --git a/plasTeX/Base/TeX/Numbers.py b/plasTeX/Base/TeX/Numbers.py
index 505b51d..4df7c6b 100644
--- a/plasTeX/Base/TeX/Numbers.py
+++ b/plasTeX/Base/TeX/Numbers.py
@@ -2,12 +2,14 @@ from plasTeX import Command, numToRoman
 
 class number(Command):
     args = 'num:number'
+    expandable = True
     def invoke(self, tex):
         a = self.parse(tex)
         return tex.textTokens(str(a['num']))
 
 class romannumeral(Command):
     args = 'num:number'
+    expandable = True
     def invoke(self, tex):
         a = self.parse(tex)
         return tex.textTokens(numToRoman(a['num']).lower())
diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index 006f75a..332c90b 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -426,6 +426,7 @@ class catcode(Command):
 
 class csname(Command):
     """ \\csname """
+    expandable = True
     def invoke(self, tex):
         name = []
         for t in tex:
@@ -509,6 +510,7 @@ class noligs_(Command):
     macroName = '@noligs'
 
 class expandafter(Command):
+    expandable = True
     def invoke(self, tex):
         nexttok = next(tex.itertokens())
         aftertok = next(tex.itertokens())
@@ -569,6 +571,7 @@ class hfil(Command):
     pass
 
 class the(Command):
+    expandable = True
     args = 'arg:cs'
     def invoke(self, tex):
         result = Command.invoke(self, tex)
diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 08c3c4a..b1b3ac0 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -347,6 +347,31 @@ class TeX(object):
 
             yield token
 
+    def expandableTokens(self):
+        """
+        Iterate over tokens while expanding them, but don't invoke macros
+        that can't be expanded
+
+        This is used to look for the end of a number, where the commands that
+        follow it must be left alone.
+
+        Returns:
+        generator that iterates through the tokens
+
+        """
+        context = self.ownerDocument.context
+        for token in self.itertokens():
+            if token.nodeType != Macro.ELEMENT_NODE and \
+               token.macroName is not None and \
+               context[token.macroName].expandable:
+                obj = self.ownerDocument.createElement(token.macroName)
+                obj.contextDepth = token.contextDepth
+                obj.parentNode = token.parentNode
+                tokens = obj.invoke(self)
+                self.pushTokens([obj] if tokens is None else tokens)
+                continue
+            yield token
+
     def createSubProcess(self):
         """
         Create a TeX instance using the same document context
@@ -1588,7 +1613,7 @@ class TeX(object):
                 break
             if t in string.digits:
                 num = t + self.readSequence(string.digits, False)
-                for t in self:
+                for t in self.expandableTokens():
                     if t.nodeType == Token.ELEMENT_NODE:
                         self.pushToken(t)
                         return sign * float(num)
@@ -1723,7 +1748,7 @@ class TeX(object):
 
         """
         output = []
-        for t in self:
+        for t in self.expandableTokens():
             if t.nodeType == Macro.ELEMENT_NODE:
                 self.pushToken(t)
                 break
@@ -1761,13 +1786,17 @@ class TeX(object):
             # integer constant
             elif t in string.digits:
                 num = number(sign * int(t + self.readSequence(string.digits,
-                                                              optspace=optspace)))
-                for t in self:
-                    if t.nodeType == Macro.ELEMENT_NODE and \
-                       isinstance(t, ParameterCommand):
-                        num = number(num * number(t))
-                    else:
-                        self.pushToken(t)
+                                                              optspace=False)))
+                # Don't look at anything behind the space, it mustn't be
+                # expanded yet
+                for t in self.expandableTokens():
+                    if optspace and t.nodeType != Macro.ELEMENT_NODE and \
+                       t.catcode == Token.CC_SPACE:
+                        break
+                    self.pushToken(t)
+                    if t.macroName is not None and \
+                       issubclass(self.ownerDocument.context[t.macroName], ParameterCommand):
+                        num = number(num * number(next(iter(self))))
                     break
             # octal constant
             elif t == "'":
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index a6b3200..9c93e1f 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1641,6 +1641,7 @@ class Counter(object):
 
 class TheCounter(Command):
     """ Base class for \\thecounter commands """
+    expandable = True
     format = None
     trimLeft = False
 
-- 
2.43.0


From bc8699609cac81a9ff1594d84d4cacfdddea96f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:47 +0000
Subject: [PATCH 32/90] fix: \iff is a math symbol and not a conditional

---
 plasTeX/Base/LaTeX/Math.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plasTeX/Base/LaTeX/Math.py b/plasTeX/Base/LaTeX/Math.py
index 60f41bb..e2907df 100644
--- a/plasTeX/Base/LaTeX/Math.py
+++ b/plasTeX/Base/LaTeX/Math.py
@@ -399,6 +399,7 @@ class rightarrow(MathSymbol): str = chr(8594)
 class Rightarrow(MathSymbol): str = chr(8658)
 class leftrightarrow(MathSymbol): str = chr(8596)
 class Leftrightarrow(MathSymbol): str = chr(8660)
+class iff(MathSymbol): str = chr(10234)
 class mapsto(MathSymbol): str = chr(8614)
 class hookleftarrow(MathSymbol): str = chr(8617)
 class leftharpoonup(MathSymbol): str = chr(8636)
-- 
2.43.0


From 02a037538053231916ca9444ab45e15e99353567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 33/90] fix: \chardef and \mathchardef are local to the current
 group

---
 plasTeX/Base/TeX/Primitives.py |  8 +++++---
 plasTeX/Context.py             | 20 ++++++++++++++++----
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index 332c90b..f7002ff 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -35,7 +35,7 @@ class Prefix(Command):
             break
         else:
             return []
-        if isinstance(obj, (DefCommand, let)):
+        if isinstance(obj, (DefCommand, let, chardef, mathchardef)):
             obj.contextDepth = t.contextDepth
             obj.parentNode = t.parentNode
             for key, value in attributes.items():
@@ -394,16 +394,18 @@ class char(Command):
         return tex.textTokens(chr(self.parse(tex)['char']))
 
 class chardef(Command):
+    local = True
     args = 'command:cs = num:Number'
     def invoke(self, tex):
         a = self.parse(tex)
-        self.ownerDocument.context.chardef(a['command'], a['num'])
+        self.ownerDocument.context.chardef(a['command'], a['num'], local=self.local)
 
 class mathchardef(Command):
+    local = True
     args = 'command:cs = num:Number'
     def invoke(self, tex):
         a = self.parse(tex)
-        self.ownerDocument.context.mathchardef(a['command'], a['num'])
+        self.ownerDocument.context.mathchardef(a['command'], a['num'], local=self.local)
 
 class NameDef(Command):
     macroName = '@namedef'
diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 6b1c001..371d84d 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -1259,7 +1259,7 @@ class Context(object):
                 dict.pop(item, name, None)
         context[name] = value
 
-    def chardef(self, name, num):
+    def chardef(self, name, num, local=False):
         """
         Create a \\chardef
 
@@ -1267,14 +1267,20 @@ class Context(object):
         name -- name of command to create
         num -- character number to use
 
+        Keyword Arguments:
+        local -- indicates whether this macro is local or global
+
         """
         # Generate a new chardef class
         macrolog.debug('creating chardef (8-bit) %s', name)
         newclass = type(name, (plasTeX.Command,),
                                 {'str':chr(num)})
-        self.addGlobal(name, newclass)
+        if local:
+            self.addLocal(name, newclass)
+        else:
+            self.addGlobal(name, newclass)
 
-    def mathchardef(self, name, num):
+    def mathchardef(self, name, num, local=False):
         """
         Create a \\mathchardef
 
@@ -1282,9 +1288,15 @@ class Context(object):
         name -- name of command to create
         num -- character number to use
 
+        Keyword Arguments:
+        local -- indicates whether this macro is local or global
+
         """
         # Generate a new chardef class
         macrolog.debug('creating mathchardef (16-bit) %s', name)
         newclass = type(name, (plasTeX.Command,),
                                 {'str':chr(num)})
-        self.addGlobal(name, newclass)
+        if local:
+            self.addLocal(name, newclass)
+        else:
+            self.addGlobal(name, newclass)
-- 
2.43.0


From aaad6f664be622da330af1036bc277f1aa5550b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 34/90] fix: \newif and \newenvironment accept names that are
 undefined or \relax

---
 plasTeX/Context.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 371d84d..d434566 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -1059,7 +1059,8 @@ class Context(object):
         """
 
         # \if already exists
-        if name in list(self.keys()):
+        if name in list(self.keys()) and \
+           not issubclass(self[name], (plasTeX.UnrecognizedMacro, relax)):
             macrolog.debug('if %s already defined', name)
             return
 
@@ -1149,7 +1150,8 @@ class Context(object):
         # Macro already exists
         if name in list(self.keys()):
             if not issubclass(self[name], (plasTeX.NewCommand,
-                                           plasTeX.Definition)):
+                                           plasTeX.UnrecognizedMacro,
+                                           plasTeX.Definition, relax)):
                 return
             macrolog.debug('redefining environment "%s"', name)
 
-- 
2.43.0


From 8d1794449adc4d274722b570b7c3071cda82675d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 35/90] fix: let $ open and close mathematics according to the
 open macros, not a class-level list

---
 plasTeX/Base/LaTeX/Arrays.py    |  3 +++
 plasTeX/Base/LaTeX/Boxes.py     |  6 ++++++
 plasTeX/Base/LaTeX/Footnotes.py |  1 +
 plasTeX/Base/LaTeX/Math.py      |  1 +
 plasTeX/Base/LaTeX/Sentences.py |  1 +
 plasTeX/Base/TeX/Primitives.py  | 24 +++++++++++-------------
 plasTeX/Context.py              | 10 ++++++++--
 7 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Arrays.py b/plasTeX/Base/LaTeX/Arrays.py
index ea80bed..4275ee5 100644
--- a/plasTeX/Base/LaTeX/Arrays.py
+++ b/plasTeX/Base/LaTeX/Arrays.py
@@ -617,6 +617,7 @@ class array(Array):
 
 class tabular(Array):
     args = '[ pos:str ] colspec:nox'
+    mathMode = False
 
 class TabularStar(tabular):
     macroName = 'tabular*'
@@ -624,9 +625,11 @@ class TabularStar(tabular):
 
 class tabularx(Array):
     args = 'width:nox colspec:nox'
+    mathMode = False
 
 class tabulary(Array):
     args = 'width:nox colspec:nox'
+    mathMode = False
 
 # Style Parameters
 
diff --git a/plasTeX/Base/LaTeX/Boxes.py b/plasTeX/Base/LaTeX/Boxes.py
index 0cc87ac..cad3e69 100644
--- a/plasTeX/Base/LaTeX/Boxes.py
+++ b/plasTeX/Base/LaTeX/Boxes.py
@@ -9,6 +9,7 @@ from plasTeX import DimenCommand, GlueCommand
 
 
 class TextBoxCommand(Command):
+    mathMode = False
 
     class width(DimenCommand):
         value = DimenCommand.new(0)
@@ -31,6 +32,7 @@ class makebox(TextBoxCommand):
 
 class fbox(Command):
     args = 'self'
+    mathMode = False
 
 class framebox(TextBoxCommand):
     args = '[ width:dimen ] [ pos:str ] self'
@@ -40,21 +42,25 @@ class newsavebox(Command):
 
 class sbox(Command):
     args = 'name:cs text'
+    mathMode = False
 
 class savebox(TextBoxCommand):
     args = 'name:cs [ width:dimen ] [ pos ] text'
 
 class lrbox(Environment):
     args = 'name:cs'
+    mathMode = False
 
 class usebox(Command):
     args = 'name:cs'
 
 class parbox(Command):
     args = '[ pos:str ] width:dimen self'
+    mathMode = False
 
 class minipage(Environment):
     args = '[ pos:str ] [ height:dimen ] [ innerpos:str ] width:dimen'
+    mathMode = False
 
 class rule(Command):
     args = '[ raise:dimen ] width:dimen height:dimen'
diff --git a/plasTeX/Base/LaTeX/Footnotes.py b/plasTeX/Base/LaTeX/Footnotes.py
index 7ef98b3..084fbd1 100644
--- a/plasTeX/Base/LaTeX/Footnotes.py
+++ b/plasTeX/Base/LaTeX/Footnotes.py
@@ -8,6 +8,7 @@ from plasTeX import Command, DimenCommand
 
 class footnote(Command):
     args = '[ num:int ] self'
+    mathMode = False
     mark = None
 
     def invoke(self, tex):
diff --git a/plasTeX/Base/LaTeX/Math.py b/plasTeX/Base/LaTeX/Math.py
index e2907df..a72490a 100644
--- a/plasTeX/Base/LaTeX/Math.py
+++ b/plasTeX/Base/LaTeX/Math.py
@@ -693,6 +693,7 @@ class unboldmath(Command):
 
 class text(Command):
     args = 'self'
+    mathMode = False
 
 # Math Style
 
diff --git a/plasTeX/Base/LaTeX/Sentences.py b/plasTeX/Base/LaTeX/Sentences.py
index eefbc59..6124566 100644
--- a/plasTeX/Base/LaTeX/Sentences.py
+++ b/plasTeX/Base/LaTeX/Sentences.py
@@ -88,6 +88,7 @@ class TeX(Command):
 
 class emph(Command):
     args = 'self'
+    mathMode = False
 
 class em(Environment):
     pass
diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index f7002ff..a6a6d85 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -81,11 +81,6 @@ class BoxCommand(Command):
     """ Base class for box-type commands """
     args = 'self'
     mathMode = False
-    def parse(self, tex):
-        MathShift.inEnv.append(None)
-        Command.parse(self, tex)
-        MathShift.inEnv.pop()
-        return self.attributes
 
 class hbox(BoxCommand): pass
 class vbox(BoxCommand): pass
@@ -100,7 +95,6 @@ class MathShift(Command):
 
     """
     macroName = 'active::$'
-    inEnv = []
 
     def invoke(self, tex):
         r"""
@@ -109,13 +103,18 @@ class MathShift(Command):
         account \mbox{}es.
 
         """
-        inEnv = type(self).inEnv
+        context = self.ownerDocument.context
+
+        # The math environment that this token may close, if any
+        opened = context.mathObject
+        if getattr(opened, 'mathShift', None) is None:
+            opened = None
 
         current = self.ownerDocument.createElement('math')
         for t in tex.itertokens():
             if t.catcode == Token.CC_MATHSHIFT:
                 # Case where we have $   $$    $ construction
-                if inEnv and inEnv[-1] is not None and type(inEnv[-1]) is type(current):
+                if opened is not None and type(opened) is type(current):
                     tex.pushToken(t)
                 else:
                     current = self.ownerDocument.createElement('displaymath')
@@ -124,15 +123,14 @@ class MathShift(Command):
             break
 
         # See if this is the end of the environment
-        if inEnv and inEnv[-1] is not None and type(inEnv[-1]) is type(current):
-            inEnv.pop()
+        if opened is not None and type(opened) is type(current):
             current.macroMode = Command.MODE_END
-            self.ownerDocument.context.pop(current)
+            context.pop(opened)
             return [current]
 
-        inEnv.append(current)
+        current.mathShift = self
         mathshiftlog.debug('%s (%s)' % (current.tagName, id(current)))
-        self.ownerDocument.context.push(current)
+        context.push(current)
 
         return [current]
 
diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index d434566..b013d15 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -292,11 +292,17 @@ class Context(object):
     @property
     def isMathMode(self):
         """ Are we in math mode or not? """
+        obj = self.mathObject
+        return obj is not None and obj.mathMode
+
+    @property
+    def mathObject(self):
+        """ The innermost open macro that selects math or text mode """
         for i in range(len(self.contexts) - 1, -1, -1):
             obj = self.contexts[i].obj
             if obj is not None and obj.mathMode is not None:
-                return obj.mathMode
-        return False
+                return obj
+        return None
 
     def loadBaseMacros(self):
         """ Import all builtin macros """
-- 
2.43.0


From 289b510100f01e23919795f7d3706c632a503cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:30 +0000
Subject: [PATCH 36/90] fix: do not let \end{x} close a declaration \x opened
 inside the environment

---
 plasTeX/Context.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index b013d15..783c06a 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -812,8 +812,10 @@ class Context(object):
                 # Don't pop parent node
                 elif o is obj.parentNode:
                     break
-                # Found the \begin to our \end
-                elif type(obj) == type(o) and obj.macroMode == obj.MODE_END:
+                # Found the \begin to our \end (and not a declaration of the
+                # same name inside that environment)
+                elif type(obj) == type(o) and obj.macroMode == obj.MODE_END \
+                     and o.macroMode == o.MODE_BEGIN:
                     self.contexts.pop()
                     break
                 # Found the \foo to our \endfoo
-- 
2.43.0


From ffa4cf3ee8d0d5bb122fd51292932ae9b744f24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 37/90] fix: token arguments restore the parsing state they
 change

---
 plasTeX/TeX.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index b1b3ac0..7d93324 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -789,25 +789,28 @@ class TeX(object):
             for tok in self.itertokens():
                 ParameterCommand.enable()
                 return tok, tok.source
+            ParameterCommand.enable()
+            return default, ''
 
         if type in ['XTok','XToken']:
-            self.ownerDocument.context.warnOnUnrecognized = False
-            for t in self.itertokens():
-                if t.catcode == Token.CC_BGROUP:
-                    self.pushToken(t)
-                    toks, source = self.readToken(True)
+            context = self.ownerDocument.context
+            warn = context.warnOnUnrecognized
+            context.warnOnUnrecognized = False
+            try:
+                for t in self.itertokens():
+                    if t.catcode == Token.CC_BGROUP:
+                        self.pushToken(t)
+                        toks, source = self.readToken(True)
+                    else:
+                        toks = self.expandTokens([t], parentNode=parentNode)
+                        source = self.source(toks)
                     if len(toks) == 1:
-                        ParameterCommand.enable()
                         return toks[0], toks[0].source
-                    ParameterCommand.enable()
                     return toks, source
-                else:
-                    toks = self.expandTokens([t], parentNode=parentNode)
-                    if len(toks) == 1:
-                        ParameterCommand.enable()
-                        return toks[0], toks[0].source
-                    ParameterCommand.enable()
-                    return toks, self.source(toks)
+            finally:
+                context.warnOnUnrecognized = warn
+                ParameterCommand.enable()
+            return default, ''
 
         # Definition argument string
         if type in ['Args']:
@@ -830,7 +833,10 @@ class TeX(object):
                 if t.catcode == Token.CC_SPACE:
                     break
                 toks.append(t)
-            return self.expandTokens(toks, parentNode=parentNode), self.source(toks)
+            source = self.source(toks)
+            toks = self.expandTokens(toks, parentNode=parentNode)
+            ParameterCommand.enable()
+            return toks, source
 
         if type in ['cs']:
             expanded = False
-- 
2.43.0


From 197d16630b2d70fc3cef00626f28c5e35e9246e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 38/90] fix: typed arguments consume their text and lose no
 element behind a number

---
 plasTeX/TeX.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 7d93324..a694425 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1101,16 +1101,16 @@ class TeX(object):
         """
         # Throw a \relax in here to keep the token after the
         # argument from being expanded when parsing the internal type
-        self.pushToken(EscapeSequence('relax'))
+        end = self.ownerDocument.createElement('relax')
+        self.pushToken(end)
         self.pushTokens(tokens)
 
         # Call the appropriate parsing method for this type
         result = method()
 
-        # Get rid of the \relax token inserted above
+        # Get rid of the \relax inserted above
         for t in self.itertokens():
-            if (t.nodeType == Token.ELEMENT_NODE and t.nodeName == 'relax') \
-               or t.macroName == 'relax':
+            if t is end:
                 break
 
         return result
@@ -1596,9 +1596,9 @@ class TeX(object):
             matched = []
             letters = list(word.upper())
             for t in self.itertokens():
+                matched.append(t)
                 if t.nodeType == Token.ELEMENT_NODE:
                     break
-                matched.append(t)
                 if t.upper() == letters[0]:
                     letters.pop(0)
                     if not letters:
-- 
2.43.0


From 53869d83155c093092b69b1873d1925860ac5233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 39/90] fix: values of key/value arguments may contain an
 equals sign

---
 plasTeX/TeX.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index a694425..6455074 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1464,7 +1464,7 @@ class TeX(object):
                 continue
 
             # Found end-of-key delimiter
-            if current == '=':
+            if current == '=' and currentvalue is None:
                 currentvalue = []
 
             # Found end-of-value delimiter
-- 
2.43.0


From 2593be1527a4255be8fbb158df6bd57eaa8fc853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 40/90] fix: hexadecimal and character constants end where TeX
 ends them

---
 plasTeX/TeX.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 6455074..8fb87ca 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1810,13 +1810,19 @@ class TeX(object):
                                                    default='0', optspace=optspace), 8))
             # hex constant
             elif t == '"':
-                num = number(sign * int('0x' + self.readSequence(string.hexdigits,
+                num = number(sign * int('0x' + self.readSequence(string.digits + 'ABCDEF',
                                                default='0', optspace=optspace), 16))
             # character token
             elif t == '`':
                 for t in self.itertokens():
+                    # The argument that the number is in may have been
+                    # expanded already
+                    if t.nodeType == Macro.ELEMENT_NODE:
+                        t = t.nodeName
                     num = number(sign * ord(t))
                     break
+                if optspace:
+                    self.readOneOptionalSpace()
             break
         ParameterCommand.enable()
         if num is not None:
-- 
2.43.0


From 8a5da7b326dc76ca0b7622004dc7d834eee4b763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 41/90] fix: infinite glue components keep their value and
 order

---
 plasTeX/TeX.py      |  7 ++++++-
 plasTeX/__init__.py | 11 +++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 8fb87ca..458cdd2 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1659,7 +1659,12 @@ class TeX(object):
                 return dimen(sign * dimen(t))
             self.pushToken(t)
             break
-        num = dimen(sign * self.readDecimal() * self.readUnitOfMeasure(units=units))
+        num = sign * self.readDecimal()
+        unit = self.readUnitOfMeasure(units=units)
+        if unit.infinite:
+            num = dimen('%.15f%s' % (num, unit.infinite))
+        else:
+            num = dimen(num * unit)
         ParameterCommand.enable()
         return num
 
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 9c93e1f..e365f45 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1323,6 +1323,17 @@ class dimen(float):
             return str(sign * (abs(self) - 2e9)) + 'fil'
         return '%spt' % self.pt
 
+    @property
+    def infinite(self):
+        """ Infinite unit (fil, fill or filll) of this dimension, or None """
+        if abs(self) >= 6e9:
+            return 'filll'
+        if abs(self) >= 4e9:
+            return 'fill'
+        if abs(self) >= 2e9:
+            return 'fil'
+        return None
+
     @property
     def pt(self):
         return self / 65536
-- 
2.43.0


From 1b27581630c9930de530499e1b66e56b93738c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 42/90] fix: glue read from a register keeps its stretch and
 shrink

---
 plasTeX/TeX.py      |  4 ++--
 plasTeX/__init__.py | 12 ++++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 458cdd2..7486c9c 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1846,7 +1846,7 @@ class TeX(object):
             if t.nodeType == Macro.ELEMENT_NODE and \
                isinstance(t, ParameterCommand):
                 ParameterCommand.enable()
-                return glue(sign * glue(t))
+                return glue(t).signed(sign)
             self.pushToken(t)
             break
         dim = self.readDimen()
@@ -1876,7 +1876,7 @@ class TeX(object):
             if t.nodeType == Macro.ELEMENT_NODE and \
                isinstance(t, ParameterCommand):
                 ParameterCommand.enable()
-                return muglue(sign * muglue(t))
+                return muglue(t).signed(sign)
             self.pushToken(t)
             break
         dim = self.readMuDimen()
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index e365f45..eeb9b91 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1416,16 +1416,24 @@ class mudimen(dimen):
 class glue(dimen):
     """ Class used for glue values """
     def __new__(cls, g, plus=None, minus=None):
-        return dimen.__new__(cls, g)
+        return dimen.__new__(cls, dimen(g))
 
     def __init__(self, g, plus=None, minus=None):
         # super(glue, self).__init__(g)
-        self.stretch = self.shrink = None
+        if isinstance(g, ParameterCommand):
+            g = type(g).value
+        self.stretch = getattr(g, 'stretch', None)
+        self.shrink = getattr(g, 'shrink', None)
         if plus is not None:
             self.stretch = dimen(plus)
         if minus is not None:
             self.shrink = dimen(minus)
 
+    def signed(self, sign):
+        """ This glue with the sign (+1 or -1) applied to all components """
+        parts = [dimen(self), self.stretch, self.shrink]
+        return type(self)(*[None if x is None else dimen(x * sign) for x in parts])
+
     @property
     def source(self):
         s = [dimen(self).source]
-- 
2.43.0


From 76e1344a3f78063e751f1502dfca7d2cc41667eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:19 +0000
Subject: [PATCH 43/90] fix: enumerate items count their own lists and skip
 items with a term

---
 plasTeX/Base/LaTeX/Lists.py | 70 ++++++++++++++++++++++++++-----------
 plasTeX/Packages/book.py    |  6 ++--
 2 files changed, 52 insertions(+), 24 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Lists.py b/plasTeX/Base/LaTeX/Lists.py
index 0a989d7..e12d12c 100644
--- a/plasTeX/Base/LaTeX/Lists.py
+++ b/plasTeX/Base/LaTeX/Lists.py
@@ -13,25 +13,53 @@ class enumivname(Command): str = ''
 
 class List(Environment):
     """ Base class for all list-based environments """
-    depth = 0
     counters = ['enumi','enumii','enumiii','enumiv']
     blockType = True
 
+    # Counter that numbers the items of this list, if there is one
+    itemcounter = None
+    # Number of items seen so far in lists that do not have a counter
+    itemcount = 0
+
     class item(Command):
         args = '[ term ]'
-        counter = 'enumi'
+        counter = ''
         position = 0
         forcePars = True
 
         def invoke(self, tex):
-            """ Set up counter for this list depth """
-            try:
-                self.counter = List.counters[List.depth-1]
-                self.position = self.ownerDocument.context.counters[self.counter].value + 1
-            except (KeyError, IndexError):
-                pass
+            """ Set up counter for the innermost list """
+            doc = self.ownerDocument
+            parent = None
+            for item in reversed(doc.context.contexts):
+                if isinstance(item.obj, List):
+                    parent = item.obj
+                    break
+            if parent is not None and parent.itemcounter:
+                counter = self.counter = parent.itemcounter
+                res = Command.invoke(self, tex)
+                self.position = doc.context.counters[counter].value
+                return res
+            if parent is not None:
+                parent.itemcount += 1
+                self.position = parent.itemcount
+                ref = doc.createDocumentFragment()
+                ref.append(doc.createTextNode(str(self.position)))
+                self.ref = ref
             return Command.invoke(self, tex)
 
+        def preArgument(self, arg, tex):
+            # The counter is stepped once we know if there is a term or not
+            if arg.index == 0:
+                self.ownerDocument.context.currentlabel = self
+
+        def postArgument(self, arg, value, tex):
+            # Only items without a term of their own are counted
+            if arg.name == 'term':
+                if value is not None:
+                    self.counter = ''
+                self.refstepcounter(tex)
+
         def digest(self, tokens):
             """
             Items should absorb all of the content within that 
@@ -48,19 +76,6 @@ class List(Environment):
             if self.forcePars:
                 self.paragraphs()
 
-    def invoke(self, tex):
-        """ Set list nesting depth """
-        if self.macroMode != Environment.MODE_END:
-            List.depth += 1
-        else:
-            List.depth -= 1
-        try:
-            for i in range(List.depth, len(List.counters)):
-                self.ownerDocument.context.counters[List.counters[i]].setcounter(0)
-        except (IndexError, KeyError):
-            pass
-        return Environment.invoke(self, tex)
-
     def digest(self, tokens):
         if self.macroMode != Environment.MODE_END:
             # Drop any whitespace before the first item
@@ -99,6 +114,19 @@ class enumerate_(List):
     macroName = 'enumerate'
     args = '[ type ]'  # Actually defined in the enumerate package, but it doesn't hurt
 
+    def invoke(self, tex):
+        """ Start the counter for this depth of enumerates """
+        if self.macroMode != Environment.MODE_END:
+            context = self.ownerDocument.context
+            depth = len([x for x in context.contexts if isinstance(x.obj, enumerate_)])
+            if depth < len(self.counters):
+                self.itemcounter = self.counters[depth]
+                if self.itemcounter in context.counters:
+                    context.counters[self.itemcounter].setcounter(0)
+                else:
+                    context.newcounter(self.itemcounter)
+        return List.invoke(self, tex)
+
 class description(List): 
     pass
 
diff --git a/plasTeX/Packages/book.py b/plasTeX/Packages/book.py
index b78b1a5..9e5f53a 100644
--- a/plasTeX/Packages/book.py
+++ b/plasTeX/Packages/book.py
@@ -4,9 +4,9 @@ def ProcessOptions(options, document):
     context = document.context
     # Lists
     context.newcounter('enumi')
-    context.newcounter('enumii', resetby='enumi')
-    context.newcounter('enumiii', resetby='enumii')
-    context.newcounter('enumiv', resetby='enumiii')
+    context.newcounter('enumii')
+    context.newcounter('enumiii')
+    context.newcounter('enumiv')
 
     # Sections
     context.newcounter('part', resetby='volume',
-- 
2.43.0


From c6fb18ddfa25160faaa1d7c1c6c2ce5cf2eabdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:19 +0000
Subject: [PATCH 44/90] fix: a starred row end in eqnarray still numbers the
 next row

---
 plasTeX/Base/LaTeX/Math.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plasTeX/Base/LaTeX/Math.py b/plasTeX/Base/LaTeX/Math.py
index a72490a..6c77528 100644
--- a/plasTeX/Base/LaTeX/Math.py
+++ b/plasTeX/Base/LaTeX/Math.py
@@ -170,6 +170,11 @@ class eqnarray(EqnarrayStar):
     class EndRow(Array.EndRow):
         """ End of a row """
         counter: Optional[str] = 'equation'
+        def postArgument(self, arg, value, tex):
+            # The star prevents a page break, the next row is still numbered
+            if arg.index == 0:
+                self.refstepcounter(tex)
+
         def invoke(self, tex):
             res = Array.EndRow.invoke(self, tex)
             res[1].ref = self.ref
-- 
2.43.0


From 30b35262ec0ca92203f736ba0f8976536f4c27b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:19 +0000
Subject: [PATCH 45/90] fix: \nonumber takes the number of its own equation or
 row, once

---
 plasTeX/Base/LaTeX/Math.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Math.py b/plasTeX/Base/LaTeX/Math.py
index 6c77528..c3d5d86 100644
--- a/plasTeX/Base/LaTeX/Math.py
+++ b/plasTeX/Base/LaTeX/Math.py
@@ -179,6 +179,10 @@ class eqnarray(EqnarrayStar):
             res = Array.EndRow.invoke(self, tex)
             res[1].ref = self.ref
             self.ownerDocument.context.currentlabel = res[1]
+            for item in reversed(self.ownerDocument.context.contexts):
+                if isinstance(item.obj, eqnarray):
+                    item.obj.currentRow = res[1]
+                    break
             return res
 
     def invoke(self, tex):
@@ -186,20 +190,24 @@ class eqnarray(EqnarrayStar):
         if self.macroMode == self.MODE_END:
             return res
         res[1].ref = self.ref
+        self.currentRow = res[1]
         return res
+
 class nonumber(Command):
 
     def invoke(self, tex):
-        self.ownerDocument.context.counters['equation'].addtocounter(-1)
-
-    def digest(self, tokens):
-        try:
-            row = self.parentNode
-            while not isinstance(row, Array.ArrayRow):
-                row = row.parentNode
-            row.ref = None
-        except AttributeError as e:
-            print('problem encountered %s' % e)
+        # Take the number from the innermost equation or row, if it has one
+        context = self.ownerDocument.context
+        for item in reversed(context.contexts):
+            obj = item.obj
+            if isinstance(obj, (equation, eqnarray)) and obj.counter:
+                row = getattr(obj, 'currentRow', obj)
+                if row.ref is not None:
+                    row.ref = None
+                    context.counters[obj.counter].addtocounter(-1)
+                break
+            if isinstance(obj, EqnarrayStar) and not isinstance(obj, eqnarray):
+                break
 
 class notag(nonumber):
     pass
-- 
2.43.0


From 376d6bc69e8acb1540e5786b8d68c508e59979f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:19 +0000
Subject: [PATCH 46/90] fix: \newcounter passes the name of the enclosing
 counter

---
 plasTeX/Base/LaTeX/Numbering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Numbering.py b/plasTeX/Base/LaTeX/Numbering.py
index fc6ed13..3241390 100644
--- a/plasTeX/Base/LaTeX/Numbering.py
+++ b/plasTeX/Base/LaTeX/Numbering.py
@@ -7,7 +7,7 @@ from plasTeX import Command
 
 
 class newcounter(Command):
-    args = 'name:str [ within ]'
+    args = 'name:str [ within:str ]'
     def invoke(self, tex):
         a = self.parse(tex)
         self.ownerDocument.context.newcounter(a['name'], a['within'])
-- 
2.43.0


From 6aacedcc267ea181836bc9679137c2ac9e5458b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:19 +0000
Subject: [PATCH 47/90] fix: \numberwithin follows later changes of the
 enclosing number

---
 plasTeX/Packages/amsmath.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/plasTeX/Packages/amsmath.py b/plasTeX/Packages/amsmath.py
index 5f81799..6d08cb1 100644
--- a/plasTeX/Packages/amsmath.py
+++ b/plasTeX/Packages/amsmath.py
@@ -1,4 +1,4 @@
-from plasTeX import Command
+from plasTeX import Command, TheCounter
 from plasTeX.Base.LaTeX.Arrays import Array
 from plasTeX.Base.LaTeX.Math import EqnarrayStar, eqnarray
 #### Imports Added by Tim ####
@@ -137,8 +137,9 @@ class numberwithin(Command):
         target_cnt.resetby = control
 
         # Formatting
-        ctx['the'+target].format = '{}.${{{}}}'.format(
-                ctx['the'+control].format, target)
+        name = 'the' + target
+        ctx.addGlobal(name, type(name, (TheCounter,),
+                {'format': '${{the{}}}.${{{}}}'.format(control, target)}))
 
 class eqref(Command):
     args = 'label:idref'
-- 
2.43.0


From 31aa14e5a317f2a829c6259b6ec93e278ba73b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:19 +0000
Subject: [PATCH 48/90] fix: setting a counter does not reset the counters
 within it

---
 plasTeX/Packages/article.py | 1 +
 plasTeX/Packages/book.py    | 1 +
 plasTeX/__init__.py         | 2 --
 3 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Packages/article.py b/plasTeX/Packages/article.py
index dd4607d..83a85c5 100644
--- a/plasTeX/Packages/article.py
+++ b/plasTeX/Packages/article.py
@@ -19,4 +19,5 @@ class appendix(Command): # type: ignore
 
     def invoke(self, tex):
         self.ownerDocument.context.counters['section'].setcounter(0)
+        self.ownerDocument.context.counters['subsection'].setcounter(0)
         self.ownerDocument.context['thesection'] = type(self).thesection 
diff --git a/plasTeX/Packages/book.py b/plasTeX/Packages/book.py
index 9e5f53a..33690b7 100644
--- a/plasTeX/Packages/book.py
+++ b/plasTeX/Packages/book.py
@@ -70,4 +70,5 @@ class appendix(Command):
 
     def invoke(self, tex):
         self.ownerDocument.context.counters['chapter'].setcounter(0)
+        self.ownerDocument.context.counters['section'].setcounter(0)
         self.ownerDocument.context['thechapter'] = type(self).thechapter
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index eeb9b91..6b0d84e 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1611,11 +1611,9 @@ class Counter(object):
 
     def addtocounter(self, other):
         self.value += int(other)
-        self.resetcounters()
 
     def setcounter(self, other):
         self.value = int(other)
-        self.resetcounters()
 
     def stepcounter(self):
         self.value += 1
-- 
2.43.0


From 69c8d54b2ca2498abd33867cce381a4f05540a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:19 +0000
Subject: [PATCH 49/90] fix: equations are numbered like figures before the
 first chapter and in reports

---
 plasTeX/Packages/book.py   | 2 +-
 plasTeX/Packages/report.py | 1 -
 plasTeX/__init__.py        | 7 +++++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/plasTeX/Packages/book.py b/plasTeX/Packages/book.py
index 33690b7..c850b4b 100644
--- a/plasTeX/Packages/book.py
+++ b/plasTeX/Packages/book.py
@@ -27,7 +27,7 @@ def ProcessOptions(options, document):
                        format='${thesubparagraph}.${subsubparagraph}')
 
     context.newcounter('equation', resetby='chapter',
-                       format='${thechapter}.${equation}')
+                       format='${thechapter}.${equation}', trimLeft=True)
 
     context.newcounter('secnumdepth')
     context.newcounter('tocdepth')
diff --git a/plasTeX/Packages/report.py b/plasTeX/Packages/report.py
index b2e5d11..73bfc18 100644
--- a/plasTeX/Packages/report.py
+++ b/plasTeX/Packages/report.py
@@ -3,4 +3,3 @@ from plasTeX.Packages import book
 
 def ProcessOptions(options, document): # type: ignore
     book.ProcessOptions(options, document)
-    document.context['theequation'].format = '${equation}'
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 6b0d84e..9c05fcc 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1645,6 +1645,9 @@ class Counter(object):
 
     @property
     def Alph(self):
+        # There is no letter for zero
+        if self.value < 1:
+            return ''
         return encoding.stringletters()[self.value - 1].upper()
 
     @property
@@ -1689,7 +1692,7 @@ class TheCounter(Command):
         # Document classes such as book and report which do this in the
         # \thefigure format macro.
         if self.trimLeft:
-            while t.startswith("0."):
-                t = t[2:]
+            while t.startswith(("0.", ".")):
+                t = t[t.index(".")+1:]
 
         return tex.textTokens(t)
-- 
2.43.0


From d8dc1f802133995fb4b75f54ebaadb575c5c1a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:19 +0000
Subject: [PATCH 50/90] fix: sections below the numbering depth do not step
 their counter

---
 plasTeX/__init__.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 9c05fcc..6251799 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -551,7 +551,7 @@ class Macro(Element):
         tex -- the TeX instance containing the current context
 
         """
-        if self.counter:
+        if self.counter and self.isNumbered:
             try:
                 self.ownerDocument.context.counters[self.counter].stepcounter()
             except KeyError:
@@ -581,12 +581,16 @@ class Macro(Element):
         tex -- the TeX instance containing the current context
 
         """
-        if self.counter:
-            try: secnumdepth = self.config['document']['sec-num-depth']
-            except: secnumdepth = 10
-            if secnumdepth >= self.level or self.level > self.ENDSECTIONS_LEVEL:
-                self.ref = self.ownerDocument.createElement('the' + self.counter).expand(tex)
-                self.captionName = self.ownerDocument.createElement(self.counter + 'name').expand(tex)
+        if self.counter and self.isNumbered:
+            self.ref = self.ownerDocument.createElement('the' + self.counter).expand(tex)
+            self.captionName = self.ownerDocument.createElement(self.counter + 'name').expand(tex)
+
+    @property
+    def isNumbered(self):
+        """ Sections below the configured depth do not have a number """
+        try: secnumdepth = self.config['document']['sec-num-depth']
+        except: secnumdepth = 10
+        return secnumdepth >= self.level or self.level > self.ENDSECTIONS_LEVEL
 
     @property
     def arguments(self):
-- 
2.43.0


From 207536c24fdbc44da609442a0b277feeb6f20cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:55 +0000
Subject: [PATCH 51/90] fix: labels in the cells of an eqnarray row belong to
 the row

---
 plasTeX/Base/LaTeX/Math.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Math.py b/plasTeX/Base/LaTeX/Math.py
index c3d5d86..e3737c2 100644
--- a/plasTeX/Base/LaTeX/Math.py
+++ b/plasTeX/Base/LaTeX/Math.py
@@ -178,7 +178,10 @@ class eqnarray(EqnarrayStar):
         def invoke(self, tex):
             res = Array.EndRow.invoke(self, tex)
             res[1].ref = self.ref
-            self.ownerDocument.context.currentlabel = res[1]
+            if self.counter:
+                # Label the row instead of its end, in all of its cells
+                context = self.ownerDocument.context
+                context.currentlabel = context.contexts[-1].currentlabel = res[1]
             for item in reversed(self.ownerDocument.context.contexts):
                 if isinstance(item.obj, eqnarray):
                     item.obj.currentRow = res[1]
-- 
2.43.0


From 489f826f9d14e15eb023132b850002b0793cb7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:55 +0000
Subject: [PATCH 52/90] fix: \refstepcounter makes its number the target of the
 labels that follow

---
 plasTeX/Base/LaTeX/Numbering.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Numbering.py b/plasTeX/Base/LaTeX/Numbering.py
index 3241390..4bae1a9 100644
--- a/plasTeX/Base/LaTeX/Numbering.py
+++ b/plasTeX/Base/LaTeX/Numbering.py
@@ -85,4 +85,8 @@ class refstepcounter(Command):
     args = 'name:str'
     def invoke(self, tex):
         a = self.parse(tex)
-        return self.ownerDocument.context.counters[a['name']].stepcounter()
+        context = self.ownerDocument.context
+        context.counters[a['name']].stepcounter()
+        # Labels that follow belong to this number
+        context.currentlabel = self
+        self.ref = self.ownerDocument.createElement('the' + a['name']).expand(tex)
-- 
2.43.0


From c3e4f7de08c5381abda9b3b78810ac6e1c3814b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:55 +0000
Subject: [PATCH 53/90] fix: the object labels belong to is local to groups and
 environments

---
 plasTeX/Context.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 783c06a..72a2a06 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -39,6 +39,8 @@ class ContextItem(dict):
         self.obj = None
         self.parent = None
         self.owner = None
+        # Labelable object in force when this context was opened
+        self.currentlabel = None
 
     @property
     def name(self):
@@ -756,6 +758,7 @@ class Context(object):
         newcontext = ContextItem()
         newcontext.categories = self.categories
         newcontext.obj = obj
+        newcontext.currentlabel = self.currentlabel
 
         if obj is not None:
 
@@ -796,9 +799,9 @@ class Context(object):
             # Pop until we hit a None in the context
             while len(self.contexts) > 1:
                 if self.contexts[-1].obj is None:
-                    self.contexts.pop()
+                    self._dropContext()
                     break
-                self.contexts.pop()
+                self._dropContext()
         else:
             while len(self.contexts) > 1:
                 o = self.contexts[-1].obj
@@ -807,7 +810,7 @@ class Context(object):
                     pass
                 # Found context pushed by ourself
                 elif o is obj:
-                    self.contexts.pop()
+                    self._dropContext()
                     break
                 # Don't pop parent node
                 elif o is obj.parentNode:
@@ -816,16 +819,24 @@ class Context(object):
                 # same name inside that environment)
                 elif type(obj) == type(o) and obj.macroMode == obj.MODE_END \
                      and o.macroMode == o.MODE_BEGIN:
-                    self.contexts.pop()
+                    self._dropContext()
                     break
                 # Found the \foo to our \endfoo
                 elif obj.nodeName == ('end%s' % o.nodeName):
-                    self.contexts.pop()
+                    self._dropContext()
                     break
-                self.contexts.pop()
+                self._dropContext()
 
         self.mapMethods()
 
+    def _dropContext(self):
+        """ Remove the innermost context, whatever it belongs to """
+        item = self.contexts.pop()
+        # The labelable object is local to groups and environments, commands
+        # (e.g. sections and captions) set it for what follows.
+        if item.obj is None or item.obj.macroMode == item.obj.MODE_BEGIN:
+            self.currentlabel = item.currentlabel
+
     def addGlobal(self, key, value):
         """
         Add a macro to the global context
-- 
2.43.0


From add59ea2bf3a8fdbacaf2ed7d84630993c51057f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:47 +0000
Subject: [PATCH 54/90] fix: label names in mathematics are read as text

---
 plasTeX/Base/LaTeX/Crossref.py | 3 +++
 plasTeX/Packages/amsmath.py    | 1 +
 2 files changed, 4 insertions(+)

diff --git a/plasTeX/Base/LaTeX/Crossref.py b/plasTeX/Base/LaTeX/Crossref.py
index 0db1ca5..355d894 100644
--- a/plasTeX/Base/LaTeX/Crossref.py
+++ b/plasTeX/Base/LaTeX/Crossref.py
@@ -8,9 +8,12 @@ from plasTeX import Command
 
 class label(Command):
     args = 'label:id'
+    mathMode = False # No scripts in the name
 
 class ref(Command):
     args = 'label:idref'
+    mathMode = False
 
 class pageref(Command):
     args = 'label:idref'
+    mathMode = False
diff --git a/plasTeX/Packages/amsmath.py b/plasTeX/Packages/amsmath.py
index 6d08cb1..e9fd387 100644
--- a/plasTeX/Packages/amsmath.py
+++ b/plasTeX/Packages/amsmath.py
@@ -143,3 +143,4 @@ class numberwithin(Command):
 
 class eqref(Command):
     args = 'label:idref'
+    mathMode = False
-- 
2.43.0


From 4a1781d0dfc95f6f008adb54d687d53f4245c618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:53 +0000
Subject: [PATCH 55/90] fix: \cline counts the columns of spanning cells

---
 plasTeX/Base/LaTeX/Arrays.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Arrays.py b/plasTeX/Base/LaTeX/Arrays.py
index 4275ee5..0b76355 100644
--- a/plasTeX/Base/LaTeX/Arrays.py
+++ b/plasTeX/Base/LaTeX/Arrays.py
@@ -147,16 +147,15 @@ class Array(Environment):
                 location = self.locations[self.position]
             colnum = 1
             for cell in cells:
-                if colnum < start or colnum > end:
-                    colnum += 1
-                    continue
-                cell.style['border-%s-style' % location] = 'solid'
-                cell.style['border-%s-color' % location] = 'black'
-                cell.style['border-%s-width' % location] = '1px'
+                span = 1
                 if cell.attributes:
-                    colnum += cell.attributes.get('colspan', 1)
-                else:
-                    colnum += 1
+                    span = cell.attributes.get('colspan', 1)
+                # The cell covers the columns colnum to colnum + span - 1
+                if colnum + span > start and colnum <= end:
+                    cell.style['border-%s-style' % location] = 'solid'
+                    cell.style['border-%s-color' % location] = 'black'
+                    cell.style['border-%s-width' % location] = '1px'
+                colnum += span
 
     class hline(BorderCommand):
         """ Full horizontal line """
-- 
2.43.0


From bf14e3150953520efe5743d02d7693e53474bf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 56/90] fix: @{...} in front of the first column is read

---
 plasTeX/Base/LaTeX/Arrays.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Arrays.py b/plasTeX/Base/LaTeX/Arrays.py
index 0b76355..41f52dc 100644
--- a/plasTeX/Base/LaTeX/Arrays.py
+++ b/plasTeX/Base/LaTeX/Arrays.py
@@ -547,8 +547,9 @@ class Array(Environment):
                 continue
 
             if tok == '@':
+                between = tex.readArgument()
                 if output:
-                    output[-1].between = tex.readArgument()
+                    output[-1].between = between
                 continue
 
             if tok == '*':
-- 
2.43.0


From 74daf96c5bcca6a0737d45829599d4371575dfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 57/90] fix: \\ in boxes and aligned text is a new line, even
 in a table cell

---
 plasTeX/Base/LaTeX/Alignment.py | 20 +++++++++++---------
 plasTeX/Base/LaTeX/Boxes.py     |  4 ++++
 plasTeX/Base/LaTeX/Footnotes.py |  3 +++
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Alignment.py b/plasTeX/Base/LaTeX/Alignment.py
index 11f411d..0332f07 100644
--- a/plasTeX/Base/LaTeX/Alignment.py
+++ b/plasTeX/Base/LaTeX/Alignment.py
@@ -3,25 +3,27 @@
 """
 
 from plasTeX import Environment
+from plasTeX.Base.LaTeX.Breaking import NewLine
 
 
-class center(Environment): 
+class centering(Environment):
     blockType = True
 
-class centering(center):
-    blockType = True
+class center(centering):
+    # A new line, even in a table cell
+    NewLine = NewLine
 
-class flushleft(Environment):
+class raggedright(Environment):
     blockType = True
 
-class raggedright(flushleft):
-    blockType = True
+class flushleft(raggedright):
+    NewLine = NewLine
 
-class flushright(Environment):
+class raggedleft(Environment):
     blockType = True
 
-class raggedleft(flushright):
-    blockType = True
+class flushright(raggedleft):
+    NewLine = NewLine
 
 class raggedbottom(Environment):
     pass
diff --git a/plasTeX/Base/LaTeX/Boxes.py b/plasTeX/Base/LaTeX/Boxes.py
index cad3e69..ac242ec 100644
--- a/plasTeX/Base/LaTeX/Boxes.py
+++ b/plasTeX/Base/LaTeX/Boxes.py
@@ -4,6 +4,7 @@ C.13.3 Boxes (p217)
 """
 
 from plasTeX.Base.TeX.Primitives import BoxCommand
+from plasTeX.Base.LaTeX.Breaking import NewLine
 from plasTeX import Command, Environment
 from plasTeX import DimenCommand, GlueCommand
 
@@ -57,10 +58,13 @@ class usebox(Command):
 class parbox(Command):
     args = '[ pos:str ] width:dimen self'
     mathMode = False
+    # A new line, even in a table cell
+    NewLine = NewLine
 
 class minipage(Environment):
     args = '[ pos:str ] [ height:dimen ] [ innerpos:str ] width:dimen'
     mathMode = False
+    NewLine = NewLine
 
 class rule(Command):
     args = '[ raise:dimen ] width:dimen height:dimen'
diff --git a/plasTeX/Base/LaTeX/Footnotes.py b/plasTeX/Base/LaTeX/Footnotes.py
index 084fbd1..36fdcc7 100644
--- a/plasTeX/Base/LaTeX/Footnotes.py
+++ b/plasTeX/Base/LaTeX/Footnotes.py
@@ -4,12 +4,15 @@ C.3.3 Footnotes (p172)
 """
 
 from plasTeX import Command, DimenCommand
+from plasTeX.Base.LaTeX.Breaking import NewLine
 
 
 class footnote(Command):
     args = '[ num:int ] self'
     mathMode = False
     mark = None
+    # A new line, even in a table cell
+    NewLine = NewLine
 
     def invoke(self, tex):
         # Add the footnote to the document
-- 
2.43.0


From ff3a9db86861717361da1a74938f2e6c1f048dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 58/90] fix: declarations in a list item do not absorb the next
 items

---
 plasTeX/Base/LaTeX/Lists.py | 1 +
 plasTeX/__init__.py         | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/plasTeX/Base/LaTeX/Lists.py b/plasTeX/Base/LaTeX/Lists.py
index e12d12c..bd1678a 100644
--- a/plasTeX/Base/LaTeX/Lists.py
+++ b/plasTeX/Base/LaTeX/Lists.py
@@ -26,6 +26,7 @@ class List(Environment):
         counter = ''
         position = 0
         forcePars = True
+        endsDeclarations = True
 
         def invoke(self, tex):
             """ Set up counter for the innermost list """
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 6251799..b189672 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -119,6 +119,9 @@ class Macro(Element):
     macroMode = MODE_NONE  # begin, end, or none
     mathMode = None # type: Optional[bool]
 
+    # Does this end all declarations in force, like a new list item does?
+    endsDeclarations = False
+
     # Node variables
     level = Node.COMMAND_LEVEL
     nodeType = Node.ELEMENT_NODE
@@ -935,6 +938,10 @@ class Environment(Macro):
             if item.nodeType == Node.ELEMENT_NODE:
                 if item.macroMode == Macro.MODE_END and type(item) is type(self):
                     break
+                # Declarations don't reach beyond the list item they are in
+                if item.endsDeclarations and self.macroMode == Macro.MODE_NONE:
+                    tokens.push(item)
+                    break
                 item.parentNode = self
                 item.digest(tokens)
             # Stay within our context depth
-- 
2.43.0


From 82e233addf5b49de279b8cd74edd83ed57f542d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 59/90] fix: empty rows and the rules in them are part of the
 source of a table

---
 plasTeX/Base/LaTeX/Arrays.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Arrays.py b/plasTeX/Base/LaTeX/Arrays.py
index 41f52dc..1d445bc 100644
--- a/plasTeX/Base/LaTeX/Arrays.py
+++ b/plasTeX/Base/LaTeX/Arrays.py
@@ -500,7 +500,15 @@ class Array(Environment):
                         cell.style.update(spec.style)
                 prev = row
 
-        # Pop empty rows
+        # Pop empty rows, they are only part of the source of their neighbors
+        popped = []
+        for i, row in enumerate(list(self)):
+            if i in emptyrows:
+                popped.append(row)
+            elif isinstance(row, Array.ArrayRow):
+                row.rowsBefore, popped = popped, []
+        if prev is not None:
+            prev.rowsAfter = popped
         for i in emptyrows:
             self.pop(i)
 
@@ -595,13 +603,15 @@ class Array(Environment):
                 argSource = ' '
             s.append('%sbegin{%s}%s' % (escape, name, argSource))
             if self.hasChildNodes():
-                for row in self:
-                    for cell in row:
-                        s.append(sourceChildren(cell, par=not(self.mathMode)))
-                        if cell.endToken is not None:
-                            s.append(cell.endToken.source)
-                    if row.endToken is not None:
-                        s.append(row.endToken.source)
+                for item in self:
+                    for row in (getattr(item, 'rowsBefore', []) + [item] +
+                                getattr(item, 'rowsAfter', [])):
+                        for cell in row:
+                            s.append(sourceChildren(cell, par=not(self.mathMode)))
+                            if cell.endToken is not None:
+                                s.append(cell.endToken.source)
+                        if row.endToken is not None:
+                            s.append(row.endToken.source)
                 s.append('%send{%s}' % (escape, name))
             return ''.join(s)
 
-- 
2.43.0


From 063e750a9fb09bfc7f49ca70fbfec5bffd9193ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 60/90] fix: any character can delimit \verb

---
 plasTeX/Base/LaTeX/Verbatim.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Verbatim.py b/plasTeX/Base/LaTeX/Verbatim.py
index d842d60..e482214 100644
--- a/plasTeX/Base/LaTeX/Verbatim.py
+++ b/plasTeX/Base/LaTeX/Verbatim.py
@@ -5,7 +5,7 @@ C.6.4 Verbatim
 
 from plasTeX import VerbatimEnvironment, Command, sourceArguments, sourceChildren
 from plasTeX.Base.TeX.Text import bgroup
-from plasTeX.Tokenizer import Other
+from plasTeX.Tokenizer import Other, Token
 
 class verbatim(VerbatimEnvironment):
     pass
@@ -29,12 +29,16 @@ class verb(Command):
     def invoke(self, tex):
         """ Parse for matching delimiters """
         self.ownerDocument.context.push(self)
+        # Looking for the star reads the delimiter already, any character
+        # but the blanks behind the macro name can be it
+        self.ownerDocument.context.setVerbatimCatcodes()
+        self.ownerDocument.context.catcode(' ', Token.CC_SPACE)
         self.parse(tex)
         self.ownerDocument.context.setVerbatimCatcodes()
         # See what the delimiter is
         for endpattern in tex:
             self.delimiter = endpattern
-            if isinstance(endpattern, bgroup):
+            if endpattern == '{' or isinstance(endpattern, bgroup):
                 self.delimiter = endpattern = Other('}')
             break
         tokens = [self, endpattern]
-- 
2.43.0


From 5f838dbd1f93380db390fe7c6f80b46052546688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 61/90] fix: quotes and dashes in groups in mathematics are
 kept

---
 plasTeX/Base/TeX/Text.py | 12 +++++++++++-
 plasTeX/__init__.py      |  4 +++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Base/TeX/Text.py b/plasTeX/Base/TeX/Text.py
index 4060bf5..3f4d4a1 100644
--- a/plasTeX/Base/TeX/Text.py
+++ b/plasTeX/Base/TeX/Text.py
@@ -3,7 +3,7 @@ B.5 Macros for text
 
 """
 
-from plasTeX import Command, sourceChildren
+from plasTeX import Command, NoCharSubEnvironment, sourceChildren
 
 class frenchspacing(Command):
     str = ''
@@ -58,6 +58,16 @@ class bgroup(Command):
             self.appendChild(item)
         self.paragraphs(force=False)
 
+    def normalize(self, charsubs=None):
+        """ Characters of groups in mathematics aren't substituted """
+        node = self.parentNode
+        while node is not None:
+            if isinstance(node, NoCharSubEnvironment):
+                charsubs = None
+                break
+            node = node.parentNode
+        return Command.normalize(self, charsubs)
+
     @property
     def source(self):
         if self.hasChildNodes():
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index b189672..5a80748 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -759,7 +759,9 @@ class Macro(Element):
 
         # No paragraphs, and we aren't forcing paragraphs...
         if parname is None and not force:
-            self.normalize(self.ownerDocument.charsubs)
+            # The characters are substituted together with those around us,
+            # when it is known whether this is text or mathematics
+            self.normalize()
             return
 
         if parname is None:
-- 
2.43.0


From 9982d1284aba25e23a48243465cffa99b4cf22d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 62/90] fix: \substack in an alignment does not end its row

---
 plasTeX/Packages/amsmath.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/plasTeX/Packages/amsmath.py b/plasTeX/Packages/amsmath.py
index e9fd387..5a56e7d 100644
--- a/plasTeX/Packages/amsmath.py
+++ b/plasTeX/Packages/amsmath.py
@@ -1,5 +1,6 @@
 from plasTeX import Command, TheCounter
 from plasTeX.Base.LaTeX.Arrays import Array
+from plasTeX.Base.LaTeX.Breaking import NewLine
 from plasTeX.Base.LaTeX.Math import EqnarrayStar, eqnarray
 #### Imports Added by Tim ####
 from plasTeX.Base.LaTeX.Math import math, MathEnvironmentPre
@@ -102,6 +103,11 @@ class Bmatrix(Array):
 class smallmatrix(Array):
     pass
 
+class substack(Command):
+    args = 'self'
+    # A new line, even in an alignment
+    NewLine = NewLine
+
 class dddot(math):
     pass
 
-- 
2.43.0


From 5af435af90800266603d19dcfb1672cee20e9e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 63/90] fix: \endverbatim does not end \begin{verbatim}

---
 plasTeX/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 5a80748..6faaf0e 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1033,7 +1033,8 @@ class VerbatimEnvironment(NoCharSubEnvironment):
                         res = [end]
                     tex.pushTokens(res)
                     break
-            if len(tokens) >= endlength2:
+            if self.macroMode == Environment.MODE_NONE and \
+               len(tokens) >= endlength2:
                 if tokens[-endlength2:] == endpattern2:
                     tokens = tokens[:-endlength2]
                     self.ownerDocument.context.pop(self)
-- 
2.43.0


From 3dd43534d2f66b56e553ef0d7657ecaee0cb8918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 64/90] fix: the index is sorted with the Unicode collation

---
 plasTeX/Base/LaTeX/Index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index 3f46fb7..96da0bf 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -14,7 +14,7 @@ from typing import Optional
 log = getLogger()
 
 try:
-    from pyuca import Collator_10_0_0
+    from pyuca.collator import Collator_10_0_0
     collator = Collator_10_0_0().sort_key
 except ImportError:
     collator = lambda x: x.lower()
-- 
2.43.0


From 6c83e4fe7370c38e9c699929c1105784ddb9241e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 65/90] fix: letters that transliterate to several letters are
 listed under their initial

---
 plasTeX/Base/LaTeX/Index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index 96da0bf..2ece9cb 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -84,7 +84,7 @@ class IndexUtils(object):
         current = ''
         for item in self:
             try:
-                label = title = unidecode(item.sortkey[0]).upper()
+                label = title = unidecode(item.sortkey[0])[:1].upper()
                 if title in encoding.stringletters():
                     pass
                 elif title == '_':
-- 
2.43.0


From ae6a353c39e48dff92c9004375a3b18946571717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 66/90] fix: the index lists the entries behind it, too

---
 plasTeX/Base/LaTeX/Index.py | 9 ++++++++-
 plasTeX/TeX.py              | 7 ++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index 2ece9cb..5acd836 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -173,9 +173,16 @@ class IndexUtils(object):
                 self.pop()
         else:
             Command.digest(self, tokens)
+        # There may be more entries behind us
+        self.ownerDocument.addPostParseCallbacks(0, self.buildIndex)
+
+    def buildIndex(self):
+        """ Create the index from the entries in the document """
+        if self.childNodes:
+            return
         doc = self.ownerDocument
         current = self
-        entries = sorted(self.ownerDocument.userdata.get('index', []))
+        entries = sorted(doc.userdata.get('index', []))
         prev = IndexEntry([], None)
         for item in entries:
             # See how many levels we need to add/subtract between this one
diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 7486c9c..1d60235 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -61,11 +61,7 @@ class TeX(object):
     def __init__(self, ownerDocument=None, file=None):
         if ownerDocument is None:
             ownerDocument = self.documentClass()
-            self.toplevel = True
-        elif file:
-            self.toplevel = True
-        else:
-            self.toplevel = False
+        self.toplevel = True
         self.ownerDocument = ownerDocument
 
         # Input source stack
@@ -382,6 +378,7 @@ class TeX(object):
         self.ownerDocument.context.push(tok)
         tex = type(self)(ownerDocument=self.ownerDocument)
         tex._endcontext = tok
+        tex.toplevel = False
         return tex
 
     def endSubProcess(self):
-- 
2.43.0


From 269d76e40eea68c1af89035566a1ac303858c82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 67/90] fix: the format of an index entry may contain ! and @

---
 plasTeX/Base/LaTeX/Index.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index 5acd836..b1a91c2 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -300,6 +300,9 @@ class index(Command):
                     for tok in entry:
                         current.append(tok)
                         break
+                # Nothing but quotes is special in the format
+                elif current is format:
+                    current.append(tok)
                 # Entry separator
                 elif tok == '!':
                     key.append(current)
@@ -323,7 +326,7 @@ class index(Command):
             current.append(tok)
 
         # Make sure to get the stuff at the end
-        if not format:
+        if current is not format:
             key.append(current)
             if len(sortkey) < len(key):
                 sortkey.append(current)
-- 
2.43.0


From 5d88b52e8d05b601a78d138f6dd24c38fa2218a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 68/90] fix: index entries that collate equally are merged

---
 plasTeX/Base/LaTeX/Index.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index b1a91c2..3cd3287 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -418,12 +418,14 @@ class IndexEntry(object):
         return not(self.see) and not(self.seealso)
 
     def __lt__(self, other):
-        key_self = list(zip([collator(x) for x in self.sortkey if isinstance(x, str)],
-                            [collator(x.textContent) for x in self.key],
-                            self.key))
-        key_other = list(zip([collator(x) for x in other.sortkey if isinstance(x, str)],
-                             [collator(x.textContent) for x in other.key],
-                             other.key))
+        # Different entries that collate equally must not be equal, or equal
+        # ones could end up on both sides of them
+        def sortkeys(entry):
+            sort = [x for x in entry.sortkey if isinstance(x, str)]
+            return list(zip([collator(x) for x in sort],
+                            [collator(x.textContent) for x in entry.key],
+                            sort, [x.source for x in entry.key]))
+        key_self, key_other = sortkeys(self), sortkeys(other)
         if key_self < key_other:
             return True
         elif key_self > key_other:
-- 
2.43.0


From acffc25b86ef99afc37a63dc01b4ec8730b08117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 69/90] fix: saved labels are replaced as a whole, checked when
 they are loaded, and define no macros

Labels that a document no longer has stayed in the file for ever, a damaged
file could yield altered labels or make saving fail, and restoring a label of
an unknown kind of object defined a macro of that name.
---
 plasTeX/Context.py | 91 ++++++++++++++++++++++++++++++----------------
 1 file changed, 60 insertions(+), 31 deletions(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 72a2a06..74aca50 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -2,6 +2,8 @@ import sys
 import os
 import configparser
 import contextlib
+import hashlib
+import pickle
 import re
 import time
 from pathlib import Path
@@ -93,6 +95,46 @@ class Counters(dict):
         return c
 
 
+# Separates the pickled labels from their checksum in auxiliary files
+CHECKSUM = b'\nsha256:'
+
+def checksum(data):
+    """ Checksum of the contents of an auxiliary file """
+    return hashlib.sha256(data).hexdigest().encode('ascii')
+
+def loadLabels(filename):
+    """
+    Load the cross-document information saved by Context.persist
+
+    Required Arguments:
+    filename -- the name of the auxiliary file
+
+    Returns: dictionary that maps the name of each renderer to a dictionary
+        of the attributes of each label.  It is empty if the file does not
+        exist or is damaged.
+
+    """
+    if not os.path.exists(filename):
+        return {}
+    try:
+        with open(filename, 'rb') as fh:
+            data = fh.read()
+        # Files without a checksum were written by older versions
+        content, separator, digest = data.rpartition(CHECKSUM)
+        if not separator:
+            content = data
+        elif digest != checksum(content):
+            raise ValueError('wrong checksum')
+        d = pickle.loads(content)
+        return {rtype: {key: value for key, value in labels.items()
+                        if isinstance(key, str) and isinstance(value, dict)}
+                for rtype, labels in d.items() if isinstance(labels, dict)}
+    except Exception as msg:
+        log.warning('Could not load auxiliary information from %s. (%s)',
+                    filename, msg)
+        return {}
+
+
 class LanguageParser(object):
     """ Parser for language commands """
 
@@ -240,24 +282,13 @@ class Context(object):
             renderer may be different.
 
         """
-        import pickle
-        if os.path.exists(filename):
-            try:
-                with open(filename, 'rb') as fh:
-                    d = pickle.load(fh)
-                    if rtype not in list(d.keys()):
-                        d[rtype] = {}
-            except:
-                os.remove(filename)
-                d = {rtype:{}}
-        else:
-            d = {rtype:{}}
-        data = d[rtype]
-        for key, value in list(self.persistentLabels.items()):
-            data[key] = value.persist()
+        d = loadLabels(filename)
+        d[rtype] = {key: value.persist()
+                    for key, value in list(self.persistentLabels.items())}
         try:
+            data = pickle.dumps(d)
             with open(filename, 'wb') as fh:
-                pickle.dump(d, fh)
+                fh.write(data + CHECKSUM + checksum(data))
         except Exception as msg:
             log.warning('Could not save auxiliary information. (%s)' % msg)
 
@@ -274,22 +305,20 @@ class Context(object):
             renderer may be different.
 
         """
-        import pickle
-        if not os.path.exists(filename):
-            return
-        try:
-            d = pickle.load(open(filename, 'rb'))
-            try: data = d[rtype]
-            except KeyError: return
-            wou = self.warnOnUnrecognized
-            self.warnOnUnrecognized = False
-            for key, value in list(data.items()):
-                n = self[value.get('macroName', 'Macro')]()
+        for key, value in list(loadLabels(filename).get(rtype, {}).items()):
+            try:
+                name = str(value.get('macroName', 'Macro'))
+                # The document that is processed may define this macro later,
+                # so it must not become known here.
+                cls = self.top.get(name)
+                if cls is None:
+                    cls = type(name, (plasTeX.UnrecognizedMacro,), {})
+                n = cls()
                 n.restore(value)
-                self.labels[key] = n
-            self.warnOnUnrecognized = wou
-        except Exception as msg:
-            log.warning('Could not load auxiliary information. (%s)' % msg)
+            except Exception as msg:
+                log.warning('Could not load auxiliary information. (%s)' % msg)
+                continue
+            self.labels[key] = n
 
     @property
     def isMathMode(self):
-- 
2.43.0


From 77d03794a6e745eba90a0c81902d10de5f67619a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 70/90] fix: \externaldocument takes the labels of its own
 renderer and survives foreign files

---
 plasTeX/Packages/xr.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/plasTeX/Packages/xr.py b/plasTeX/Packages/xr.py
index 00a10c7..73a30d6 100644
--- a/plasTeX/Packages/xr.py
+++ b/plasTeX/Packages/xr.py
@@ -1,7 +1,7 @@
-import pickle
 import os
 from typing import Dict
 from plasTeX import Command
+from plasTeX.Context import loadLabels
 from plasTeX.Logging import getLogger
 
 log = getLogger()
@@ -10,12 +10,16 @@ def load_paux(name: str) -> Dict:
     if not os.path.exists(name):
         log.warning('Could not find {}'.format(name))
         return dict()
-    try:
-        data = pickle.load(open(name, 'rb'))
-    except:
-        log.warning('Failed to load {}'.format(name))
-        return dict()
-    return data
+    return loadLabels(name)
+
+
+class ExternalLabel(dict):
+    """ The attributes of a label of another document """
+
+    def __getattr__(self, name):
+        if name in self or name in Command.refAttributes:
+            return self.get(name)
+        raise AttributeError(name)
 
 
 class externaldocument(Command):
@@ -29,8 +33,8 @@ class externaldocument(Command):
         if url:
             url = url.textContent.rstrip('/') + '/'
         labels = self.ownerDocument.context.labels
-        for block in load_paux(pauxname).values():
-            for lbl, val in block.items():
-                labels[prefix + lbl] = val
-                if url:
-                    labels[prefix + lbl]['url'] = url + labels[prefix + lbl]['url']
+        rname = self.ownerDocument.config['general']['renderer']
+        for lbl, val in load_paux(pauxname).get(rname, {}).items():
+            val = labels[prefix + lbl] = ExternalLabel(val)
+            if url and 'url' in val:
+                val['url'] = url + str(val['url'])
-- 
2.43.0


From 5a233eb68351ae548a5637782df72d18911ce580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:07 +0000
Subject: [PATCH 71/90] fix: quotes and dashes in text outside of paragraphs
 are substituted

---
 plasTeX/Base/LaTeX/Document.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Document.py b/plasTeX/Base/LaTeX/Document.py
index 9b801ec..e4d8e8b 100644
--- a/plasTeX/Base/LaTeX/Document.py
+++ b/plasTeX/Base/LaTeX/Document.py
@@ -25,7 +25,26 @@ class document(Environment, SectionUtils):
             self.ownerDocument.context.counters[name].setcounter(value-1)
 
         return res
- 
+
+    def digest(self, tokens):
+        Environment.digest(self, tokens)
+        # Sectioning units and paragraphs have done this for their text
+        nodes = list(self.childNodes)
+        if any(x.level == self.PAR_LEVEL for x in nodes):
+            return
+        while self.childNodes:
+            self.childNodes.pop()
+        text = []
+        for item in nodes:
+            if item.nodeType == item.TEXT_NODE:
+                text.append(item)
+                continue
+            self.appendText(text, self.ownerDocument.charsubs)
+            self.appendChild(item)
+            if item.level > self.PAR_LEVEL:
+                item.normalize(self.ownerDocument.charsubs)
+        self.appendText(text, self.ownerDocument.charsubs)
+
     @property
     def index(self):
         idx = self.getElementsByTagName(['theindex','printindex'])
-- 
2.43.0


From 0b7d3aff5dd582cc7a5a490da2a5c2db3f5b5881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:31 +0000
Subject: [PATCH 72/90] fix: every document has its own values of the registers

---
 plasTeX/Context.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 74aca50..f8817ea 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -227,6 +227,9 @@ class Context(object):
         self.counters = Counters()
         self.counters.context = self
 
+        # The registers of this context for those of the modules
+        self.registers = {}
+
         # Imported packages and their options
         self.packages = {}
 
@@ -795,10 +798,30 @@ class Context(object):
 #           if obj.categories is not None:
 #               newcontext.categories = obj.categories
 
-            newcontext.update(obj.locals())
+            for key, value in obj.locals().items():
+                newcontext[key] = self.ownRegister(value)
 
         return newcontext
 
+    def ownRegister(self, value):
+        """
+        Get the register of this context for a register class
+
+        The value of a register is stored in its class.  The classes of
+        the modules are shared by all documents, so every context has
+        classes of its own.  Other macros are returned as they are.
+
+        Required Arguments:
+        value -- macro class or instance
+
+        """
+        if not isinstance(value, type) or not issubclass(value, plasTeX.ParameterCommand):
+            return value
+        if value not in self.registers:
+            own = type(value.__name__, (value,), {'__module__': value.__module__})
+            self.registers[value] = self.registers[own] = own
+        return self.registers[value]
+
     def importMacros(self, context):
         """
         Import macros from given context into the global namespace
@@ -809,7 +832,7 @@ class Context(object):
         """
         for value in list(context.values()):
             if ismacro(value):
-                self[macroName(value)] = value
+                self[macroName(value)] = self.ownRegister(value)
 #           elif isinstance(value, Context):
 #               self.importMacros(value)
 
-- 
2.43.0


From 77bd9a589934586a9c0ec258d68967e884942d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:31 +0000
Subject: [PATCH 73/90] fix: reading a column specification leaves nothing in
 the Array class

---
 plasTeX/Base/LaTeX/Arrays.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Arrays.py b/plasTeX/Base/LaTeX/Arrays.py
index 1d445bc..92ca880 100644
--- a/plasTeX/Base/LaTeX/Arrays.py
+++ b/plasTeX/Base/LaTeX/Arrays.py
@@ -529,11 +529,12 @@ class Array(Environment):
         before = None
         leftborder = None
 
-        tex.pushToken(Array)
+        end = Array()
+        tex.pushToken(end)
         tex.pushTokens(colspec)
 
         for tok in tex.itertokens():
-            if tok is Array:
+            if tok is end:
                 break
 
             if tok.isElementContentWhitespace:
-- 
2.43.0


From 2d9238da41b2f23945d39e7d78fd2e56d8eb9008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:31 +0000
Subject: [PATCH 74/90] fix: the article class and natbib no longer change the
 classes of other documents

---
 plasTeX/Packages/article.py | 12 ++++++------
 plasTeX/Packages/natbib.py  | 14 ++++++++++++--
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/plasTeX/Packages/article.py b/plasTeX/Packages/article.py
index 83a85c5..d00b59b 100644
--- a/plasTeX/Packages/article.py
+++ b/plasTeX/Packages/article.py
@@ -5,12 +5,12 @@ from plasTeX.Packages import report
 def ProcessOptions(options, document): # type: ignore
     report.ProcessOptions(options, document)
     document.context['thesection'].format = '${section}'
-    document.context['theindex'].counter = 'section'
-    document.context['theindex'].level = Environment.SECTION_LEVEL
-    document.context['printindex'].counter = 'section'
-    document.context['printindex'].level = Command.SECTION_LEVEL
-    document.context['bibliography'].counter = 'section'
-    document.context['bibliography'].level = Command.SECTION_LEVEL
+    # The macro classes are shared by all documents, they must not be changed
+    for name in ['theindex', 'printindex', 'bibliography']:
+        base = document.context[name]
+        document.context[name] = type(base.__name__, (base,),
+            {'__module__': base.__module__,
+             'counter': 'section', 'level': Environment.SECTION_LEVEL})
 
 class appendix(Command): # type: ignore
 
diff --git a/plasTeX/Packages/natbib.py b/plasTeX/Packages/natbib.py
index 6be9f62..8fcdca1 100644
--- a/plasTeX/Packages/natbib.py
+++ b/plasTeX/Packages/natbib.py
@@ -23,6 +23,9 @@ def ProcessOptions(options, document):
              'style':bstyleoption('a'),
              'dates':bstyleoption(','),
              'years':bstyleoption(',')}
+    # The document class may have changed these
+    bibliography = document.context['bibliography']
+    sectioning = {'level': bibliography.level, 'counter': bibliography.counter}
     for key, value in options.items():
         if key == 'numbers':
             punct['style'] = 'n'
@@ -50,7 +53,7 @@ def ProcessOptions(options, document):
         elif key == 'colon':
             punct['sep'] = ';'
         elif key == 'sectionbib':
-            Base.bibliography.level = Base.section.level
+            sectioning['level'] = Base.section.level
         elif key == 'sort':
             pass
         elif key in ['sort&compress','sortandcompress']:
@@ -59,7 +62,8 @@ def ProcessOptions(options, document):
             pass
         elif key == 'nonamebreak':
             pass
-    document.userdata['natbib'] = {**options, **new_options, 'punctuation': punct}
+    document.userdata['natbib'] = {**options, **new_options, 'punctuation': punct,
+                                    'sectioning': sectioning}
 
 class bibliography(Base.bibliography):
 
@@ -67,6 +71,12 @@ class bibliography(Base.bibliography):
         # Added so that setcounters in the aux file don't mess counters up
         args = 'name:nox num:nox'
 
+    def invoke(self, tex):
+        sectioning = self.ownerDocument.userdata['natbib']['sectioning']
+        self.level = sectioning['level']
+        self.counter = sectioning['counter']
+        return Base.bibliography.invoke(self, tex)
+
     def loadBibliographyFile(self, tex):
         doc = self.ownerDocument
         # Clear out any bib info from the standard package.
-- 
2.43.0


From 850d8502e28af5a162fe5edbe3586e2f234aea53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:31 +0000
Subject: [PATCH 75/90] fix: beamer, hyperref and verse no longer change the
 macros of other documents

---
 plasTeX/Packages/beamer.py   | 139 +++++++++++++++++++++++++++--------
 plasTeX/Packages/hyperref.py |   7 +-
 plasTeX/Packages/verse.py    |   3 +-
 3 files changed, 114 insertions(+), 35 deletions(-)

diff --git a/plasTeX/Packages/beamer.py b/plasTeX/Packages/beamer.py
index 716cd5e..1db3932 100644
--- a/plasTeX/Packages/beamer.py
+++ b/plasTeX/Packages/beamer.py
@@ -2,7 +2,7 @@ from plasTeX import Command, Environment
 from plasTeX.Base import textbf, textit, textsl, textrm, textsf
 from plasTeX.Base import List, label, newcommand, newenvironment
 from plasTeX.Base import renewcommand, renewenvironment
-from plasTeX.Base import itemize, enumerate_, description
+from plasTeX.Base import itemize, enumerate_, description, trivlist, ConfigurableList
 from plasTeX.Base import part, section, subsection, subsubsection
 from plasTeX.Base import tableofcontents, thebibliography
 from plasTeX.Base import abstract, verse, quotation, quote, footnote, footnotetext
@@ -138,37 +138,112 @@ class overlayarea(Environment):
 class overprint(Environment):
     args = 'width'
 
-List.item.args = '< alert >' + List.item.args + '< alert2 >'
-textbf.args = '< overlay >' + textbf.args
-textit.args = '< overlay >' + textit.args
-textsl.args = '< overlay >' + textsl.args
-textrm.args = '< overlay >' + textrm.args
-textsf.args = '< overlay >' + textsf.args
-color.args = '< overlay >' + color.args
-label.args = '< overlay >' + label.args
-includegraphics.args = '< overlay >' + includegraphics.args
-newcommand.args = '< overlay >' + newcommand.args
-renewcommand.args = '< overlay >' + renewcommand.args
-newenvironment.args = '< overlay >' + newenvironment.args
-renewenvironment.args = '< overlay >' + renewenvironment.args
-itemize.args = '[ overlay ]'
-enumerate_.args = '[ overlay ] [ template ]'
-description.args = '[ overlay ] [ longtext ]'
-section.args = '< overlay >' + section.args
-subsection.args = '< overlay >' + subsection.args
-subsubsection.args = '< overlay >' + subsubsection.args
-part.args = '< overlay >' + part.args
-thebibliography.bibitem.args = '< overlay >' + thebibliography.bibitem.args
-appendix.args = '< overlay >' + appendix.args
-hypertarget.args = '< overlay >' + hypertarget.args
-hyperlink.args = '< overlay >' + hyperlink.args + '< overlay2 >'
-tableofcontents.args = '[ options:dict ]' + tableofcontents.args
-abstract.args = '< overlay >' + abstract.args
-verse.args = '< overlay >' + verse.args
-quotation.args = '< overlay >' + quotation.args
-quote.args = '< overlay >' + quote.args
-footnote.args = '< overlay > [ options:dict ] self' # modify options int -> dict
-footnotetext.args = '< overlay > [ options:dict ] self' # modify options int -> dict
+# These have additional arguments.  The original classes are shared with the
+# other document classes, so they must not be changed.
+
+class itemize(itemize): # type: ignore
+    args = '[ overlay ]'
+
+    class item(List.item):
+        args = '< alert >' + List.item.args + '< alert2 >'
+
+class enumerate_(enumerate_): # type: ignore
+    args = '[ overlay ] [ template ]'
+    item = itemize.item
+
+class description(description): # type: ignore
+    args = '[ overlay ] [ longtext ]'
+    item = itemize.item
+
+class trivlist(trivlist): # type: ignore
+    item = itemize.item
+
+class ConfigurableList(ConfigurableList): # type: ignore
+    item = itemize.item
+
+class thebibliography(thebibliography): # type: ignore
+    item = itemize.item
+
+    class bibitem(thebibliography.bibitem):
+        args = '< overlay >' + thebibliography.bibitem.args
+
+class textbf(textbf): # type: ignore
+    args = '< overlay >' + textbf.args
+
+class textit(textit): # type: ignore
+    args = '< overlay >' + textit.args
+
+class textsl(textsl): # type: ignore
+    args = '< overlay >' + textsl.args
+
+class textrm(textrm): # type: ignore
+    args = '< overlay >' + textrm.args
+
+class textsf(textsf): # type: ignore
+    args = '< overlay >' + textsf.args
+
+class color(color): # type: ignore
+    args = '< overlay >' + color.args
+
+class label(label): # type: ignore
+    args = '< overlay >' + label.args
+
+class includegraphics(includegraphics): # type: ignore
+    args = '< overlay >' + includegraphics.args
+
+class newcommand(newcommand): # type: ignore
+    args = '< overlay >' + newcommand.args
+
+class renewcommand(renewcommand): # type: ignore
+    args = '< overlay >' + renewcommand.args
+
+class newenvironment(newenvironment): # type: ignore
+    args = '< overlay >' + newenvironment.args
+
+class renewenvironment(renewenvironment): # type: ignore
+    args = '< overlay >' + renewenvironment.args
+
+class section(section): # type: ignore
+    args = '< overlay >' + section.args
+
+class subsection(subsection): # type: ignore
+    args = '< overlay >' + subsection.args
+
+class subsubsection(subsubsection): # type: ignore
+    args = '< overlay >' + subsubsection.args
+
+class part(part): # type: ignore
+    args = '< overlay >' + part.args
+
+class appendix(appendix): # type: ignore
+    args = '< overlay >' + appendix.args
+
+class hypertarget(hypertarget): # type: ignore
+    args = '< overlay >' + hypertarget.args
+
+class hyperlink(hyperlink): # type: ignore
+    args = '< overlay >' + hyperlink.args + '< overlay2 >'
+
+class tableofcontents(tableofcontents): # type: ignore
+    args = '[ options:dict ]' + tableofcontents.args
+
+class abstract(abstract): # type: ignore
+    args = '< overlay >' + abstract.args
+
+class verse(verse): # type: ignore
+    args = '< overlay >' + verse.args
+
+class quotation(quotation): # type: ignore
+    args = '< overlay >' + quotation.args
+
+class quote(quote): # type: ignore
+    args = '< overlay >' + quote.args
+
+class footnote(footnote): # type: ignore
+    args = '< overlay > [ options:dict ] self' # modify options int -> dict
+
+class footnotetext(footnotetext): # type: ignore
+    args = '< overlay > [ options:dict ] self' # modify options int -> dict
 
 class resetcounteronoverlays(Command):
     args = 'counter'
diff --git a/plasTeX/Packages/hyperref.py b/plasTeX/Packages/hyperref.py
index 46b276e..d20eaeb 100644
--- a/plasTeX/Packages/hyperref.py
+++ b/plasTeX/Packages/hyperref.py
@@ -21,8 +21,11 @@ def addBaseURL(self, urlarg):
 
 # Basic macros
 
-ref.args = '* %s' % ref.args
-pageref.args = '* %s' % pageref.args
+class ref(ref): # type: ignore
+    args = '* %s' % ref.args
+
+class pageref(pageref): # type: ignore
+    args = '* %s' % pageref.args
 
 class href(Command):
     args = 'url:url self'
diff --git a/plasTeX/Packages/verse.py b/plasTeX/Packages/verse.py
index 2259395..105f9ae 100644
--- a/plasTeX/Packages/verse.py
+++ b/plasTeX/Packages/verse.py
@@ -1,6 +1,7 @@
 from plasTeX.Base.LaTeX.Quotations import verse
 
-verse.args = '[ width:nox ]'
+class verse(verse): # type: ignore
+    args = '[ width:nox ]'
 
 class altverse(verse):
     pass
-- 
2.43.0


From 759f5b0836123deedf0297b0b78aae66484db376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:10 +0000
Subject: [PATCH 76/90] fix: \thesection redefined with markup no longer stops
 \thesubsection

---
 plasTeX/__init__.py | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 6faaf0e..ce97d90 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1682,12 +1682,17 @@ class TheCounter(Command):
     def invoke(self, tex):
 
         def counterValue(m):
-            """ Replace the counter values """
+            """ Get the replacement of a counter value """
             name = m.group(1)
 
             # If there is a reference to another \\thecounter, invoke it
             if name.startswith('the') and name != re.sub(r'^the', '', self.__class__.__name__):
-                return ''.join(tex.expandTokens(self.ownerDocument.createElement(name).invoke(tex)))
+                tokens = list(self.ownerDocument.createElement(name).invoke(tex))
+                expanded = tex.expandTokens(list(tokens))
+                if all(isinstance(x, str) for x in expanded):
+                    return ''.join(expanded)
+                # It contains more than text, leave the expansion for later
+                return tokens
 
             # Get formatted value of the requested counter
             format = m.group(2)
@@ -1696,17 +1701,34 @@ class TheCounter(Command):
 
             return getattr(self.ownerDocument.context.counters[name], format)
 
-        format = re.sub(r'\$(\w+)', r'${\1}', self.format)
-        if self.format is None:
+        format = self.format
+        if format is None:
             format = '${%s.arabic}' % self.nodeName[3:]
-
-        t = re.sub(r'\$\{\s*(\w+)(?:\.(\w+))?\s*\}', counterValue, format)
+        format = re.sub(r'\$(\w+)', r'${\1}', format)
+
+        # Pieces of text, and lists of tokens
+        pieces = ['']
+        pos = 0
+        for m in re.finditer(r'\$\{\s*(\w+)(?:\.(\w+))?\s*\}', format):
+            pieces[-1] += format[pos:m.start()]
+            pos = m.end()
+            value = counterValue(m)
+            if isinstance(value, str):
+                pieces[-1] += value
+            else:
+                pieces += [value, '']
+        pieces[-1] += format[pos:]
 
         # If trimLeft is set to True, we remove any "0." at the beginning.
         # Document classes such as book and report which do this in the
         # \thefigure format macro.
         if self.trimLeft:
+            t = pieces[0]
             while t.startswith(("0.", ".")):
                 t = t[t.index(".")+1:]
+            pieces[0] = t
 
-        return tex.textTokens(t)
+        out = []
+        for piece in pieces:
+            out += tex.textTokens(piece) if isinstance(piece, str) else piece
+        return out
-- 
2.43.0


From 68a10a801ebe7ddc678c5cd103517ff8804f5b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 77/90] fix: characters that the output encoding lacks are
 written as character references instead of stopping the renderer

---
 plasTeX/Renderers/PageTemplate/__init__.py | 1 +
 plasTeX/Renderers/__init__.py              | 9 +++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Renderers/PageTemplate/__init__.py b/plasTeX/Renderers/PageTemplate/__init__.py
index 527118f..e94c904 100644
--- a/plasTeX/Renderers/PageTemplate/__init__.py
+++ b/plasTeX/Renderers/PageTemplate/__init__.py
@@ -280,6 +280,7 @@ class PageTemplate(BaseRenderer):
 
     outputType = str
     fileExtension = '.xml'
+    unencodable = 'xmlcharrefreplace'
 
     def __init__(self, *args, **kwargs):
         BaseRenderer.__init__(self, *args, **kwargs)
diff --git a/plasTeX/Renderers/__init__.py b/plasTeX/Renderers/__init__.py
index 002e955..a4d847b 100644
--- a/plasTeX/Renderers/__init__.py
+++ b/plasTeX/Renderers/__init__.py
@@ -199,7 +199,8 @@ class Renderable(object):
                 # Write the file content
 
                 enc = child.config['files']['output-encoding']
-                with open(filename, 'w', encoding=enc) as f:
+                with open(filename, 'w', encoding=enc,
+                          errors=r.unencodable) as f:
                     f.write(val)
 
                 status.info(' ] ')
@@ -359,6 +360,9 @@ class Renderer(dict):
     imageUnits = '&${units};'
     encodingErrors = 'replace'
 
+    # What to do with characters that the output encoding doesn't have
+    unencodable = 'strict'
+
     def __init__(self, data=None):
         dict.__init__(self, data or {})
 
@@ -568,7 +572,8 @@ class Renderer(dict):
             if isinstance(postProcess, collections.abc.Callable):
                 s = postProcess(document, s)
 
-            with open(f, 'w', encoding=encoding) as fd:
+            with open(f, 'w', encoding=encoding,
+                      errors=self.unencodable) as fd:
                 fd.write(''.join(s))
 
     def find(self, keys, default=None):
-- 
2.43.0


From 2e2e64a5c94843eb3736cbd18eb0cc9581823fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 78/90] fix: text that looks like an image placeholder is left
 as it is

---
 plasTeX/Renderers/PageTemplate/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Renderers/PageTemplate/__init__.py b/plasTeX/Renderers/PageTemplate/__init__.py
index e94c904..f63aaa9 100644
--- a/plasTeX/Renderers/PageTemplate/__init__.py
+++ b/plasTeX/Renderers/PageTemplate/__init__.py
@@ -646,7 +646,8 @@ class PageTemplate(BaseRenderer):
                 return str(getattr(img, parameter))
         except KeyError: pass
 
-        return '&%s-%s;' % (filename, parameter)
+        # Not a placeholder, just text that looks like one
+        return m.group(0)
 
 
 # Set Renderer variable so that plastex will know how to load it
-- 
2.43.0


From c349298e24eee852ffc5c1272203be1fa8f27e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 79/90] fix: style sheets of amsthm and listings are written in
 the encoding in which they are read again

---
 plasTeX/Packages/amsthm.py   | 4 +++-
 plasTeX/Packages/listings.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Packages/amsthm.py b/plasTeX/Packages/amsthm.py
index 96a53be..0970d1b 100755
--- a/plasTeX/Packages/amsthm.py
+++ b/plasTeX/Packages/amsthm.py
@@ -41,7 +41,9 @@ def fontstyle(tag):
 def make_amsthm_css(document):
     styles = document.userdata.getPath("packages/amsthm/styles")
     path = Path('styles')/'amsthm.css'
-    with path.open('w') as cssfile:
+    # (the renderer reads this file again)
+    encoding = document.config['files']['output-encoding']
+    with path.open('w', encoding=encoding) as cssfile:
         swap = document.userdata.getPath("packages/amsthm/swapnumbers")
         if swap:
             cssfile.write(r"""
diff --git a/plasTeX/Packages/listings.py b/plasTeX/Packages/listings.py
index e9be29e..f0dac71 100644
--- a/plasTeX/Packages/listings.py
+++ b/plasTeX/Packages/listings.py
@@ -30,7 +30,9 @@ def ProcessOptions(options, document):
 
 def make_pygments_css(document):
     path = Path('styles')/'pygments.css'
-    path.write_text(HtmlFormatter().get_style_defs())
+    # (the renderer reads this file again)
+    encoding = document.config['files']['output-encoding']
+    path.write_text(HtmlFormatter().get_style_defs(), encoding=encoding)
     return [str(path)]
 
 class lstset(Command):
-- 
2.43.0


From 7ac8d2ac9c2f18fa06053bbc3424a72d5b9714eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 80/90] fix: HTML5 layouts and index escape titles in
 attributes and targets of see entries

---
 plasTeX/Renderers/HTML5/Index.jinja2s              |  2 +-
 .../HTML5/Themes/default/default-layout.jinja2     | 14 +++++++-------
 .../HTML5/Themes/default/document-layout.jinja2    | 14 +++++++-------
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/Index.jinja2s b/plasTeX/Renderers/HTML5/Index.jinja2s
index 99253a7..9a8523a 100755
--- a/plasTeX/Renderers/HTML5/Index.jinja2s
+++ b/plasTeX/Renderers/HTML5/Index.jinja2s
@@ -19,7 +19,7 @@ name: theindex printindex
   <li>
     <span class="index-item">{{ item.key }}</span>,
     {% for page in item.pages %}
-    <a href="{{ page.url }}" title="{{ page.currentSection.title | striptags }}" class="{% if loop.last %}index-page-last{% else %}index-page{% endif %}">{{ page }}</a>
+    <a href="{{ page.url }}" title="{{ page.currentSection.title | striptags | e }}" class="{% if loop.last %}index-page-last{% else %}index-page{% endif %}">{{ page }}</a>
     {% endfor %}
     {% if item %}
       <ul class="index-subitem-{{ loop.depth }}">
diff --git a/plasTeX/Renderers/HTML5/Themes/default/default-layout.jinja2 b/plasTeX/Renderers/HTML5/Themes/default/default-layout.jinja2
index c31176a..f13b95c 100755
--- a/plasTeX/Renderers/HTML5/Themes/default/default-layout.jinja2
+++ b/plasTeX/Renderers/HTML5/Themes/default/default-layout.jinja2
@@ -3,7 +3,7 @@
 {% set toc = doc.tableofcontents if config.html5['display-toc'] else None %}
 {% set rendererdata = obj.ownerDocument.rendererdata['html5'] %}
 {% macro tocEntry(section) %}
-<span class="toc_ref">{{ section.ref.textContent }}</span> <span class="toc_entry">{{ section.tocEntry }}</span>{% endmacro %}
+<span class="toc_ref">{{ section.ref.textContent | e }}</span> <span class="toc_entry">{{ section.tocEntry }}</span>{% endmacro %}
 {% macro isActive(section) %}
 {% if section in links.breadcrumbs %} active{% endif %}
 {% endmacro %}
@@ -47,13 +47,13 @@
 {% endif %}
 {% endif %}
 {% if links.next.url %}
-<link rel="next" href="{{ links.next.url }}" title="{{ links.next.title.textContent }}" />
+<link rel="next" href="{{ links.next.url }}" title="{{ links.next.title.textContent | e }}" />
 {% endif %}
 {% if links.prev.url %}
-<link rel="prev" href="{{ links.prev.url }}" title="{{ links.prev.title.textContent }}" />
+<link rel="prev" href="{{ links.prev.url }}" title="{{ links.prev.title.textContent | e }}" />
 {% endif %}
 {% if links.up.url %}
-<link rel="up" href="{{ links.up.url }}" title="{{ links.up.title.textContent }}" />
+<link rel="up" href="{{ links.up.url }}" title="{{ links.up.title.textContent | e }}" />
 {% endif %}
 {% for css in rendererdata.get('css', []) %}
 <link rel="stylesheet" href="styles/{{ css }}" />
@@ -144,13 +144,13 @@
   {{ icon(nav['icon'], id=nav['id'], class=nav['class']) }}
 {% endfor %}
   {% if links.prev.url %}
-  <a href="{{ links.prev.url }}" title="{{ links.prev.title | striptags }}">{{ icon('arrow-left')}}</a>
+  <a href="{{ links.prev.url }}" title="{{ links.prev.title | striptags | e }}">{{ icon('arrow-left')}}</a>
   {% endif %}
   {% if links.up.url %}
-  <a href="{{ links.up.url }}" title="{{ links.up.title | striptags }}">{{ icon('arrow-up')}}</a>
+  <a href="{{ links.up.url }}" title="{{ links.up.title | striptags | e }}">{{ icon('arrow-up')}}</a>
   {% endif %}
   {% if links.next.url %}
-  <a href="{{ links.next.url }}" title="{{ links.next.title | striptags }}">{{ icon('arrow-right')}}</a>
+  <a href="{{ links.next.url }}" title="{{ links.next.title | striptags | e }}">{{ icon('arrow-right')}}</a>
   {% endif %}
   {% if links.index.url %}
   <a href="{{ links.index.url }}" class="index">Index</a>
diff --git a/plasTeX/Renderers/HTML5/Themes/default/document-layout.jinja2 b/plasTeX/Renderers/HTML5/Themes/default/document-layout.jinja2
index a7aa818..3f09bbd 100755
--- a/plasTeX/Renderers/HTML5/Themes/default/document-layout.jinja2
+++ b/plasTeX/Renderers/HTML5/Themes/default/document-layout.jinja2
@@ -3,7 +3,7 @@
 {% set toc = doc.tableofcontents if config.html5['display-toc'] else None %}
 {% set rendererdata = obj.ownerDocument.rendererdata['html5'] %}
 {% macro tocEntry(section) %}
-<span class="toc_ref">{{ section.ref.textContent }}</span> <span class="toc_entry">{{ section.tocEntry }}</span>{% endmacro %}
+<span class="toc_ref">{{ section.ref.textContent | e }}</span> <span class="toc_entry">{{ section.tocEntry }}</span>{% endmacro %}
 {% macro isActive(section) %}
 {% if section in links.breadcrumbs %} active{% endif %}
 {% endmacro %}
@@ -47,13 +47,13 @@
 {% endif %}
 {% endif %}
 {% if links.next.url %}
-<link rel="next" href="{{ links.next.url }}" title="{{ links.next.title.textContent }}" />
+<link rel="next" href="{{ links.next.url }}" title="{{ links.next.title.textContent | e }}" />
 {% endif %}
 {% if links.prev.url %}
-<link rel="prev" href="{{ links.prev.url }}" title="{{ links.prev.title.textContent }}" />
+<link rel="prev" href="{{ links.prev.url }}" title="{{ links.prev.title.textContent | e }}" />
 {% endif %}
 {% if links.up.url %}
-<link rel="up" href="{{ links.up.url }}" title="{{ links.up.title.textContent }}" />
+<link rel="up" href="{{ links.up.url }}" title="{{ links.up.title.textContent | e }}" />
 {% endif %}
 {% for css in rendererdata.get('css', []) %}
 <link rel="stylesheet" href="styles/{{ css }}" />
@@ -143,13 +143,13 @@
   {{ icon(nav['icon'], id=nav['id'], class=nav['class']) }}
 {% endfor %}
   {% if links.prev.url %}
-  <a href="{{ links.prev.url }}" title="{{ links.prev.title | striptags }}">{{ icon('arrow-left')}}</a>
+  <a href="{{ links.prev.url }}" title="{{ links.prev.title | striptags | e }}">{{ icon('arrow-left')}}</a>
   {% endif %}
   {% if links.up.url %}
-  <a href="{{ links.up.url }}" title="{{ links.up.title | striptags }}">{{ icon('arrow-up')}}</a>
+  <a href="{{ links.up.url }}" title="{{ links.up.title | striptags | e }}">{{ icon('arrow-up')}}</a>
   {% endif %}
   {% if links.next.url %}
-  <a href="{{ links.next.url }}" title="{{ links.next.title | striptags }}">{{ icon('arrow-right')}}</a>
+  <a href="{{ links.next.url }}" title="{{ links.next.title | striptags | e }}">{{ icon('arrow-right')}}</a>
   {% endif %}
   {% if links.index.url %}
   <a href="{{ links.index.url }}" class="index">Index</a>
-- 
2.43.0


From b2b032e334afca1a76ca50e5074d7a3ebb23bce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 81/90] fix: HTML5 templates escape theorem names and citation
 punctuation that are plain strings

---
 plasTeX/Renderers/HTML5/Thms.jinja2s   | 2 +-
 plasTeX/Renderers/HTML5/natbib.jinja2s | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/Thms.jinja2s b/plasTeX/Renderers/HTML5/Thms.jinja2s
index c87ab7e..aea222e 100644
--- a/plasTeX/Renderers/HTML5/Thms.jinja2s
+++ b/plasTeX/Renderers/HTML5/Thms.jinja2s
@@ -16,7 +16,7 @@ name: thmenv
 <div class="{{ obj.thmName }}_thmwrapper {% if obj.style %}theorem-style-{{ obj.style }}{% endif %}" id="{{ obj.id }}">
   <div class="{{ obj.thmName }}_thmheading">
     <span class="{{ obj.thmName }}_thmcaption">
-    {{ obj.caption }}
+    {{ obj.caption | e if obj.caption is string else obj.caption }}
     </span>
 	{% if obj.ref %}
     <span class="{{obj.thmName}}_thmlabel">{{obj.ref}}</span>
diff --git a/plasTeX/Renderers/HTML5/natbib.jinja2s b/plasTeX/Renderers/HTML5/natbib.jinja2s
index 0a07470..22bb1ef 100644
--- a/plasTeX/Renderers/HTML5/natbib.jinja2s
+++ b/plasTeX/Renderers/HTML5/natbib.jinja2s
@@ -5,9 +5,9 @@ type: xml
 <span class="cite">
 {% for item in obj.citation() %}
 	{% if item.idref and item.idref.bibitem.url %}
-	<a href="{{ item.idref.bibitem.url }}" >{{ item }}</a>
+	<a href="{{ item.idref.bibitem.url }}" >{{ item | e if item is string else item }}</a>
 	{% else %}
-	{{ item }}
+	{{ item | e if item is string else item }}
 	{% endif %}
 {% endfor %}
 </span>
-- 
2.43.0


From 51b1270b4b67b1f59eb1e33b06ffa20268f64518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 82/90] fix: HTML5 templates escape the source in alt
 attributes

---
 plasTeX/Renderers/HTML5/FontSelection.jinja2s | 2 +-
 plasTeX/Renderers/HTML5/Pictures.jinja2s      | 2 +-
 plasTeX/Renderers/HTML5/Tabbing.jinja2s       | 2 +-
 plasTeX/Renderers/HTML5/graphicx.jinja2s      | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/FontSelection.jinja2s b/plasTeX/Renderers/HTML5/FontSelection.jinja2s
index 3b72b22..f9c2a8a 100644
--- a/plasTeX/Renderers/HTML5/FontSelection.jinja2s
+++ b/plasTeX/Renderers/HTML5/FontSelection.jinja2s
@@ -84,5 +84,5 @@ name: Huge
 name: symbol
 {% if obj.renderer.vectorImager.enabled %}
 <object type="image/svg+xml" data="{{ obj.vectorImage.url }}" style="width: {{ obj.vectorImage.width.em }}; height: {{ obj.vectorImage.height.em }} vertical-align: {{ obj.vectorImage.depth.em }}">
-  <img src="obj.image.url" alt="{{ obj.source }}" style="vertical-align: {{ obj.image.depth.px }}; width:{{obj.image.width.px}}; height:{{obj.image.height.px}}" class="symbol gen" />
+  <img src="obj.image.url" alt="{{ obj.source | e }}" style="vertical-align: {{ obj.image.depth.px }}; width:{{obj.image.width.px}}; height:{{obj.image.height.px}}" class="symbol gen" />
 </object>
diff --git a/plasTeX/Renderers/HTML5/Pictures.jinja2s b/plasTeX/Renderers/HTML5/Pictures.jinja2s
index 2296bf9..82bf863 100644
--- a/plasTeX/Renderers/HTML5/Pictures.jinja2s
+++ b/plasTeX/Renderers/HTML5/Pictures.jinja2s
@@ -3,7 +3,7 @@ name: picture
 {% if obj.renderer.vectorImager.enabled %}
 <object type="image/svg+xml" data="{{ obj.vectorImage.url }}" style="width: {{ obj.vectorImage.width.em }}; height: {{ obj.vectorImage.height.em }};">
 {% endif %}
-<img src="{{ obj.image.url }}" alt="{{ obj.source }}" style="width: {{ obj.image.width.px }}; height: {{obj.image.height.px }}" class="picture gen" />
+<img src="{{ obj.image.url }}" alt="{{ obj.source | e }}" style="width: {{ obj.image.width.px }}; height: {{obj.image.height.px }}" class="picture gen" />
 {% if obj.renderer.vectorImager.enabled %}
 </object>
 {% endif %}
diff --git a/plasTeX/Renderers/HTML5/Tabbing.jinja2s b/plasTeX/Renderers/HTML5/Tabbing.jinja2s
index 4e413bc..65fdf53 100644
--- a/plasTeX/Renderers/HTML5/Tabbing.jinja2s
+++ b/plasTeX/Renderers/HTML5/Tabbing.jinja2s
@@ -3,7 +3,7 @@ name: tabbing
 {% if obj.renderer.vectorImager.enabled %}
 <object type="image/svg+xml" data="{{ obj.vectorImage.url }}" style="width: {{ obj.vectorImage.width.em }}; height: {{ obj.vectorImage.height.em }};">
 {% endif %}
-<img src="{{ obj.image.url }}" alt="{{ obj.source }}" style="width: {{ obj.image.width.px }}; height: {{obj.image.height.px }}" class="tabbing gen" />
+<img src="{{ obj.image.url }}" alt="{{ obj.source | e }}" style="width: {{ obj.image.width.px }}; height: {{obj.image.height.px }}" class="tabbing gen" />
 {% if obj.renderer.vectorImager.enabled %}
 </object>
 {% endif %}
diff --git a/plasTeX/Renderers/HTML5/graphicx.jinja2s b/plasTeX/Renderers/HTML5/graphicx.jinja2s
index e39a01f..5b63e6d 100755
--- a/plasTeX/Renderers/HTML5/graphicx.jinja2s
+++ b/plasTeX/Renderers/HTML5/graphicx.jinja2s
@@ -5,9 +5,9 @@ name: includegraphics rotatebox scalebox reflectbox resizebox
 {% set image = obj.image %}
 {% endif %}
 {% if obj.style %}
-<img src="{{ image.url}}" alt="{{ obj.source }}" style="{{ obj.style.inline}}" />
+<img src="{{ image.url}}" alt="{{ obj.source | e }}" style="{{ obj.style.inline}}" />
 {% else %}
-<img src="{{ image.url}}" alt="{{ obj.source }}" style="width: {{ image.width.px }}; height: {{ image.height.px }}" />
+<img src="{{ image.url}}" alt="{{ obj.source | e }}" style="width: {{ image.width.px }}; height: {{ image.height.px }}" />
 {% endif %}
 
 name: DeclareGraphicsExtensions graphicspath
-- 
2.43.0


From 210daf04e069219cb373731e1226f2388d707ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 83/90] fix: labels of form fields and addresses are escaped
 once in attributes

---
 plasTeX/Renderers/HTML5/hyperref.jinja2s | 12 ++++++------
 plasTeX/Renderers/XHTML/hyperref.zpts    | 20 ++++++++++----------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/hyperref.jinja2s b/plasTeX/Renderers/HTML5/hyperref.jinja2s
index 437e7a9..06cf019 100644
--- a/plasTeX/Renderers/HTML5/hyperref.jinja2s
+++ b/plasTeX/Renderers/HTML5/hyperref.jinja2s
@@ -38,28 +38,28 @@ name: Form
 
 name: TextField
 <label for="{{ obj.id }}" >{{ obj.attributes.label }}</label>
-<input name="{{ obj.attributes.parameters.name or obj.attributes.label }}" id="{{ obj.id }}" />
+<input name="{{ obj.attributes.parameters.name or (obj.attributes.label.textContent | e) }}" id="{{ obj.id }}" />
 
 name: CheckBox
 <label for="{{ obj.id }}" >{{ obj.attributes.label }}</label>
-<input type="checkbox" name="{{ obj.attributes.parameters.name or obj.attributes.label }}" id="{{ obj.id }}" />
+<input type="checkbox" name="{{ obj.attributes.parameters.name or (obj.attributes.label.textContent | e) }}" id="{{ obj.id }}" />
 
 name: ChoiceMenu
 <label for="{{ obj.id }}" >{{ obj.attributes.label }}</label>
-<select name="{{ obj.attributes.parameters.name or obj.attributes.label }}" id="{{ obj.id }}"> 
+<select name="{{ obj.attributes.parameters.name or (obj.attributes.label.textContent | e) }}" id="{{ obj.id }}"> 
 {% for choice in obj.attributes.choices %}
   <option>{{ choice }}</option>
 {% endfor %}
 </select>
 
 name: PushButton
-<input type="button" name="{{ obj.attributes.parameters.name or obj.attributes.label}}" id="{{ obj.id }}" value="{{ obj.attributes.label }}" />
+<input type="button" name="{{ obj.attributes.parameters.name or (obj.attributes.label.textContent | e) }}" id="{{ obj.id }}" value="{{ obj.attributes.label.textContent | e }}" />
 
 name: Submit
-<input type="submit" name="{{ obj.attributes.parameters.name or obj.attributes.label}}" id="{{ obj.id }}" value="{{ obj.attributes.label }}" />
+<input type="submit" name="{{ obj.attributes.parameters.name or (obj.attributes.label.textContent | e) }}" id="{{ obj.id }}" value="{{ obj.attributes.label.textContent | e }}" />
 
 name: Reset
-<input type="reset" name="{{ obj.attributes.parameters.name or obj.attributes.label}}" id="{{ obj.id }}" value="{{ obj.attributes.label }}" />
+<input type="reset" name="{{ obj.attributes.parameters.name or (obj.attributes.label.textContent | e) }}" id="{{ obj.id }}" value="{{ obj.attributes.label.textContent | e }}" />
 
 name: ref*
 <span >{{ obj.idref.label.ref }}</span>
diff --git a/plasTeX/Renderers/XHTML/hyperref.zpts b/plasTeX/Renderers/XHTML/hyperref.zpts
index e8919f5..3f715d1 100644
--- a/plasTeX/Renderers/XHTML/hyperref.zpts
+++ b/plasTeX/Renderers/XHTML/hyperref.zpts
@@ -1,8 +1,8 @@
 name: href
-<a tal:attributes="href self/attributes/url" tal:content="self">link text</a>
+<a tal:attributes="href self/attributes/url/textContent | self/attributes/url" tal:content="self">link text</a>
 
 name: url
-<a tal:attributes="href self/attributes/url | self" tal:content="self/attributes/url | self">link text</a>
+<a tal:attributes="href self/attributes/url/textContent | self/attributes/url | self" tal:content="self/attributes/url | self">link text</a>
 
 name: nolinkurl
 <span tal:replace="self/attributes/url">url</span>
@@ -10,7 +10,7 @@ name: nolinkurl
 name: hyperbaseurl
 
 name: hyperimage
-<img tal:attributes="src self/attributes/url" />
+<img tal:attributes="src self/attributes/url/textContent | self/attributes/url" />
 
 name: hyperdef
 <a tal:attributes="name string:${self/attributes/category}.${self/attributes/name}" tal:content="self">text</a>
@@ -31,7 +31,7 @@ name: phantomsection
 <a tal:attributes="name self/id"></a>
 
 name: autoref
-<a tal:attributes="href self/idref/label/url" tal:content="string:${self/idref/label/captionName} ${self/idref/label/ref}">Figure #.#.#</a>
+<a tal:attributes="href self/idref/label/url" tal:content="structure string:${self/idref/label/captionName} ${self/idref/label/ref}">Figure #.#.#</a>
 
 name: Form
 <form tal:attributes="action self/attributes/parameters/action; 
@@ -40,26 +40,26 @@ name: Form
 
 name: TextField
 <label tal:attributes="for self/id" tal:content="self/attributes/label">label text</label>
-<input tal:attributes="name self/attributes/parameters/name | self/attributes/label; id self/id" />
+<input tal:attributes="name self/attributes/parameters/name | self/attributes/label/textContent; id self/id" />
 
 name: CheckBox
 <label tal:attributes="for self/id" tal:content="self/attributes/label">label text</label>
-<input type="checkbox" tal:attributes="name self/attributes/parameters/name | self/attributes/label; id self/id" />
+<input type="checkbox" tal:attributes="name self/attributes/parameters/name | self/attributes/label/textContent; id self/id" />
 
 name: ChoiceMenu
 <label tal:attributes="for self/id" tal:content="self/attributes/label">label text</label>
-<select tal:attributes="name self/attributes/parameters/name | self/attributes/label; id self/id"> 
+<select tal:attributes="name self/attributes/parameters/name | self/attributes/label/textContent; id self/id"> 
 <option tal:repeat="choice self/attributes/choices" tal:content="choice"></option>
 </select>
 
 name: PushButton
-<input type="button" tal:attributes="name self/attributes/parameters/name | self/attributes/label; id self/id; value self/attributes/label" />
+<input type="button" tal:attributes="name self/attributes/parameters/name | self/attributes/label/textContent; id self/id; value self/attributes/label/textContent | self/attributes/label" />
 
 name: Submit
-<input type="submit" tal:attributes="name self/attributes/parameters/name | self/attributes/label; id self/id; value self/attributes/label" />
+<input type="submit" tal:attributes="name self/attributes/parameters/name | self/attributes/label/textContent; id self/id; value self/attributes/label/textContent | self/attributes/label" />
 
 name: Reset
-<input type="reset" tal:attributes="name self/attributes/parameters/name | self/attributes/label; id self/id; value self/attributes/label" />
+<input type="reset" tal:attributes="name self/attributes/parameters/name | self/attributes/label/textContent; id self/id; value self/attributes/label/textContent | self/attributes/label" />
 
 name: ref*
 <span tal:content="self/idref/label/ref">#.#.#</span>
-- 
2.43.0


From cea86172844ee151dc573c7481b25bb287ceac50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 84/90] fix: the note of a citation is not escaped twice

---
 plasTeX/Base/LaTeX/Bibliography.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Bibliography.py b/plasTeX/Base/LaTeX/Bibliography.py
index 374c10f..718190a 100644
--- a/plasTeX/Base/LaTeX/Bibliography.py
+++ b/plasTeX/Base/LaTeX/Bibliography.py
@@ -126,7 +126,10 @@ class cite(Command):
             else:
                 if self.postnote:
                     res.append(', ')
-                    res.append(self.postnote)
+                    # One item, so that it is rendered as a whole
+                    node = self.ownerDocument.createElement('bgroup')
+                    node.extend(self.postnote)
+                    res.append(node)
                 res.append(']')
         return res
 
-- 
2.43.0


From 932ed24cd338e027ad58f8ad0710484f1fa5dff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 85/90] fix: XHTML templates escape captions, references and
 listings once

---
 plasTeX/Renderers/XHTML/Floats.zpts    | 2 +-
 plasTeX/Renderers/XHTML/listings.zpts  | 6 +++---
 plasTeX/Renderers/XHTML/longtable.zpts | 2 +-
 plasTeX/Renderers/XHTML/subfig.zpts    | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/plasTeX/Renderers/XHTML/Floats.zpts b/plasTeX/Renderers/XHTML/Floats.zpts
index 02aae16..2623edb 100644
--- a/plasTeX/Renderers/XHTML/Floats.zpts
+++ b/plasTeX/Renderers/XHTML/Floats.zpts
@@ -10,4 +10,4 @@ name: marginpar
 <p class="marginpar" tal:content="self/attributes/right">margin par</p>
 
 name: caption
-<div class="caption"><b tal:content="string:${self/title} ${self/ref}">Figure 1.1</b>: <span tal:content="self">Caption text</span></div>
+<div class="caption"><b tal:content="structure string:${self/title} ${self/ref}">Figure 1.1</b>: <span tal:content="self">Caption text</span></div>
diff --git a/plasTeX/Renderers/XHTML/listings.zpts b/plasTeX/Renderers/XHTML/listings.zpts
index 10f6c2e..b9a9300 100644
--- a/plasTeX/Renderers/XHTML/listings.zpts
+++ b/plasTeX/Renderers/XHTML/listings.zpts
@@ -2,12 +2,12 @@ name:lstset
 
 name:lstinputlisting lstlisting
 <div tal:condition="self/attributes/arguments/caption" class="caption" tal:attributes='id self/attributes/arguments/label'>
-  <b tal:content='string:${self/captionName} ${self/ref}'></b>: 
+  <b tal:content='structure string:${self/captionName} ${self/ref}'></b>: 
   <span tal:replace='self/attributes/arguments/caption'></span>
 </div>
-<pre tal:condition="self/html_listing" tal:replace='self/html_listing'></pre>
+<pre tal:condition="self/html_listing" tal:replace='structure self/html_listing'></pre>
 <pre tal:condition="not:self/html_listing" tal:content='text self/plain_listing'></pre>
 
 name: lstinline
-<tt tal:condition="self/html_listing" tal:replace='self/html_listing'></tt>
+<tt tal:condition="self/html_listing" tal:replace='structure self/html_listing'></tt>
 <tt tal:condition="not:self/html_listing" tal:content='text self/plain_listing'></tt>
diff --git a/plasTeX/Renderers/XHTML/longtable.zpts b/plasTeX/Renderers/XHTML/longtable.zpts
index f67ad24..2f73587 100644
--- a/plasTeX/Renderers/XHTML/longtable.zpts
+++ b/plasTeX/Renderers/XHTML/longtable.zpts
@@ -2,7 +2,7 @@ name: longtable
 type: xml
 <div tal:attributes="id self/title/id">
 <div tal:condition="self/title" class="caption"><b 
-     tal:content="string:${self/title/title} ${self/title/ref}">Figure 1.1</b>: 
+     tal:content="structure string:${self/title/title} ${self/title/ref}">Figure 1.1</b>: 
      <span tal:content="self/title">Caption text</span></div>
 <table class="tabular" cellspacing="0">
 <tr tal:repeat="row self">
diff --git a/plasTeX/Renderers/XHTML/subfig.zpts b/plasTeX/Renderers/XHTML/subfig.zpts
index 0abfd40..f49d316 100644
--- a/plasTeX/Renderers/XHTML/subfig.zpts
+++ b/plasTeX/Renderers/XHTML/subfig.zpts
@@ -1,11 +1,11 @@
 name: subfloat subfig
 <table class="subfloat" tal:attributes="id self/id">
 <tr><td tal:content="self"></td></tr>
-<tr><td style="text-align:center">(<span tal:replace="string:${self/subref}">x</span>) <span tal:content="self/title">Sub-caption</span></td></tr>
+<tr><td style="text-align:center">(<span tal:replace="structure string:${self/subref}">x</span>) <span tal:content="self/title">Sub-caption</span></td></tr>
 </table>
 
 name: subref
-<a tal:attributes="href self/idref/label/url" tal:content="string:(${self/idref/label/subref})">#.#.#</a>
+<a tal:attributes="href self/idref/label/url" tal:content="structure string:(${self/idref/label/subref})">#.#.#</a>
 
 name: subref*
 <a tal:attributes="href self/idref/label/url" tal:content="self/idref/label/subref">#.#.#</a>
-- 
2.43.0


From d1d98e97cf9e064bcc40d029ddaf82fda9a8ee15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 86/90] fix: \floatname keeps special characters of the name

---
 plasTeX/Packages/float.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Packages/float.py b/plasTeX/Packages/float.py
index 082a6b9..e19b014 100644
--- a/plasTeX/Packages/float.py
+++ b/plasTeX/Packages/float.py
@@ -30,7 +30,7 @@ class restylefloat(Command):
     args = 'float:str'
 
 class floatname(Command):
-    args = 'float:str name:str'
+    args = 'float:str name:nox'
     def invoke(self, tex):
         Command.invoke(self, tex)
         float = str(self.attributes['float'])
-- 
2.43.0


From 0731e4ec04aa9e8764c9619ac3997daa473fccb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:43 +0000
Subject: [PATCH 87/90] fix: XHTML renders theorem titles and numbers and proof
 captions

---
 plasTeX/Renderers/XHTML/Thms.zpts | 13 +++++++++++++
 1 file changed, 13 insertions(+)
 create mode 100644 plasTeX/Renderers/XHTML/Thms.zpts

diff --git a/plasTeX/Renderers/XHTML/Thms.zpts b/plasTeX/Renderers/XHTML/Thms.zpts
new file mode 100644
index 0000000..b11bd40
--- /dev/null
+++ b/plasTeX/Renderers/XHTML/Thms.zpts
@@ -0,0 +1,13 @@
+name: thmenv
+<div tal:attributes="id self/id; class string:theorem ${self/thmName}">
+<b><span tal:replace="self/caption">Theorem</span> <span tal:condition="self/ref" tal:replace="self/ref">1.1</span></b>
+<span tal:condition="self/title">(<span tal:replace="self/title">title</span>)</span>
+<div tal:content="self">theorem</div>
+</div>
+
+name: proof
+<div class="proof" tal:attributes="id self/id">
+<i tal:condition="self/caption" tal:content="self/caption">Proof of theorem</i>
+<i tal:condition="not:self/caption" tal:content="self/ownerDocument/context/terms/proof">Proof</i>
+<div tal:content="self">proof</div>
+</div>
-- 
2.43.0


From 85f3e0b2646330e971d6407540d56431cdabfb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:43 +0000
Subject: [PATCH 88/90] fix: HTML5 renders a longtable without caption

---
 plasTeX/Renderers/HTML5/longtable.jinja2s | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/longtable.jinja2s b/plasTeX/Renderers/HTML5/longtable.jinja2s
index 50c2070..509b246 100644
--- a/plasTeX/Renderers/HTML5/longtable.jinja2s
+++ b/plasTeX/Renderers/HTML5/longtable.jinja2s
@@ -1,5 +1,5 @@
 name: longtable
-<div id="{{ obj.title.id }}">
+<div{% if obj.title %} id="{{ obj.title.id }}"{% endif %}>
 {% if obj.title %}
 <div class="caption">
   <span class="table-label">{{ obj.title.title }} {{ obj.title.ref }}</span> 
@@ -16,7 +16,7 @@ name: longtable
   <td style="{{ cell.style.inline}}" rowspan="{{ cell.attributes.rowspan }}" colspan="{{ cell.attributes.colspan }}">{{ cell }}</td>
   {% endif %}
 {% endfor %}
-{% endfor %}
 </tr>
+{% endfor %}
 </table>
 </div>
-- 
2.43.0


From f2b181c52e2f44d8a547ed024fdbae5f1bb45369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:43 +0000
Subject: [PATCH 89/90] fix: XHTML python theme shows the footnotes of the
 document file

---
 plasTeX/Renderers/XHTML/Themes/python/document-layout.html | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/plasTeX/Renderers/XHTML/Themes/python/document-layout.html b/plasTeX/Renderers/XHTML/Themes/python/document-layout.html
index 3b6a02c..0e8ebd3 100644
--- a/plasTeX/Renderers/XHTML/Themes/python/document-layout.html
+++ b/plasTeX/Renderers/XHTML/Themes/python/document-layout.html
@@ -79,6 +79,13 @@
 </ul>
 </div>
 
+<div id="footnotes" tal:condition="self/footnotes">
+<p><b>Footnotes</b></p>
+<ol>
+<li tal:repeat="footnote self/footnotes" tal:content="footnote" tal:attributes="id footnote/id">footnote text</li>
+</ol>
+</div>
+
 <div class="navigation">
 <div class='online-navigation'>
 <p></p><hr />
-- 
2.43.0


From 3dbfa2dc578fa00ef0120b76e61bdb39eb97e63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:43 +0000
Subject: [PATCH 90/90] fix: XHTML default theme links to the url of the table
 of contents

---
 plasTeX/Renderers/XHTML/Themes/default/default-layout.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Renderers/XHTML/Themes/default/default-layout.html b/plasTeX/Renderers/XHTML/Themes/default/default-layout.html
index 39c024f..77d887d 100644
--- a/plasTeX/Renderers/XHTML/Themes/default/default-layout.html
+++ b/plasTeX/Renderers/XHTML/Themes/default/default-layout.html
@@ -88,7 +88,7 @@
 <td tal:condition="links/next"><a tal:attributes="href links/next/url"><img border="0" tal:attributes="alt stripped:Next: ${links/next/title}" src="icons/next.gif" width="32" height="32" /></a></td>
 <td tal:condition="not:links/next"><img border="0" alt="" src="icons/blank.gif" width="32" height="32" /></td>
 <td class="navtitle" align="center" tal:content="links/document/title">Section Title</td>
-<td tal:condition="links/contents"><a tal:attributes="href links/contents/title"><img border="0" alt="" src="icons/contents.gif" width="32" height="32" /></a></td>
+<td tal:condition="links/contents"><a tal:attributes="href links/contents/url"><img border="0" alt="" src="icons/contents.gif" width="32" height="32" /></a></td>
 <td tal:condition="not:links/contents"><img border="0" alt="" src="icons/blank.gif" width="32" height="32" /></td>
 <td tal:condition="links/index"><a tal:attributes="href links/index/url" title="Index"><img border="0" alt="" src="icons/index.gif" width="32" height="32" /></a></td>
 <td tal:condition="not:links/index"><img border="0" alt="" src="icons/blank.gif" width="32" height="32" /></td>
-- 
2.43.0

