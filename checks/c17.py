r"""C17: what was processed before has no influence.

The state of the interpreter between two documents is explored explicitly: the
real code processes documents in forked interpreters (a fork is the snapshot of
a state), sequences of documents form a tree.

state      after each document every class attribute and module value of
           plasTeX equals its initial value (the set of reachable states is {initial}).
pairs      A;B for all probes B: the result of B is that of B in a fresh interpreter.
deep       A1;..;Ak;B with k up to 4 over documents that change parsing state.
long       B at every place of long sequences in one interpreter.
render     the rendered files of A;B.
"""
import contextlib
import io
import itertools
import json
import logging
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile

from mc import core
from mc.core import FnSpace, Violation

PROP = 'C17'
LEVEL = 'model_checking'
RULE = ('a state is the value of all class attributes and module values of plasTeX between two documents; a transition is one document processed '
        'to completion; distinct_nontrivial counts distinct (history, document, result) combinations')
ASSUMPTIONS = [
    'a document whose processing ends in an exception is no history (its successors are not compared)',
    'generated identifiers (a0000000001) are compared up to renaming, as are memory addresses',
    'caches (names with @, or containing cache or memo) are not parsing state; their influence is decided by the comparison of results',
    'attributes with new private names are not reported by themselves',
]

# ------------------------------------------------------------- documents

ART = '\\documentclass{article}%s\\begin{document}%s\\end{document}'


def art(body, pre=''):
    return ART % (pre, body)


def cls(name, body, pre=''):
    return '\\documentclass{%s}%s\\begin{document}%s\\end{document}' % (name, pre, body)


# documents that change something
HIST = {
    # registers
    'parindent': '\\parindent=17pt a', 'parskip': '\\parskip=3pt plus 1pt minus 2pt a', 'tolerance': '\\tolerance=77 a', 'thinmuskip': '\\thinmuskip=9mu a',
    'hsize': art('\\hsize=100pt\\textwidth=5cm\\linewidth=4cm\\columnwidth=3cm a'), 'baselineskip': art('\\baselineskip=20pt a', '\\oddsidemargin=3pt'),
    'setlength': art('\\setlength{\\parindent}{7pt}\\addtolength{\\parskip}{3pt}\\setlength{\\textwidth}{3cm} a'),
    'advance': '\\advance\\parindent by 3pt \\multiply\\tolerance by 2 \\divide\\tolerance by 3 a',
    'grouped': '{\\parindent=18pt a}{\\global\\parindent=19pt a}', 'copy': '\\parindent=\\parskip \\parskip=\\baselineskip a',
    'year': '\\year=1900 \\month=2 \\day=3 \\the\\year', 'escape': '\\escapechar=33 \\endlinechar=65 \\newlinechar=66 \\uchyph=0 \\hyphenchar=3 a',
    'arrays': art('\\tabcolsep=9pt\\arraycolsep=8pt\\arrayrulewidth=7pt\\begin{tabular}{l}a\\end{tabular}'),
    'newregs': '\\newcount\\cc\\newdimen\\dd\\newskip\\ss\\cc=5 \\dd=6pt \\ss=7pt plus 1fil \\the\\cc',
    'missing': '\\parindent', 'badvalue': '\\tolerance=x', 'nested': '\\parindent=\\hsize \\parskip \\tolerance 5 a', 'listparms': art('\\itemsep=3pt\\topsep=4pt\\begin{itemize}\\itemsep=5pt\\item a\\end{itemize}'),
    'secnum': art('\\section{a}\\subsection{b}', '\\setcounter{secnumdepth}{0}\\setcounter{tocdepth}{1}'),
    # left open
    'open$': 'a $x', 'open$$': 'a $$x', 'open(': 'a \\(x', 'open[': 'a \\[x', 'openeq': art('\\begin{equation}x'), 'openeqn': art('\\begin{eqnarray}x&=&'), 'openmbox': art('$x\\mbox{a $y'),
    'openlist': art('\\begin{itemize}\\item a\\begin{itemize}\\item b'), 'openenum': art('\\begin{enumerate}\\item a\\begin{enumerate}\\item b\\begin{enumerate}\\item c'),
    'opengroup': '{\\bf a {\\it b', 'opentab': art('\\begin{tabular}{ll}a&b\\\\c'), 'openverb': art('\\begin{verbatim}x%y'), 'openverbc': 'a \\verb|x%y', 'openif': '\\iftrue a \\iffalse b',
    'opencond': '\\ifnum 1=1 a \\else b', 'opencs': '\\csname ab', 'openarg': '\\textbf{a', 'openfoot': art('a\\footnote{b'), 'openfig': art('\\begin{figure}a\\caption{b'), 'opendef': '\\def\\x#1{', 'opensec': art('\\section{a'),
    'opencomment': art('a %'), 'openopt': art('\\section[a'), 'openfrac': '$\\frac{a', 'openleft': '$\\left( a', 'openbib': art('\\begin{thebibliography}{9}\\bibitem{a} b'), 'openxdef': '\\edef\\x{a', 'openmulti': art('\\begin{tabular}{l}\\multicolumn{2}{c}{a'),
    # definitions
    'defs': '\\def\\par{x}\\def\\textbf#1{[#1]}\\let\\section\\subsection\\let\\emph=\\textit a', 'renew': art('\\begin{enumerate}\\item a\\end{enumerate}\\section{a}', '\\renewcommand{\\thesection}{S\\arabic{section}}\\renewcommand{\\theenumi}{\\Alph{enumi}}\\renewcommand{\\labelenumi}{[\\theenumi]}'),
    'newif': '\\newif\\ifflag\\flagtrue\\ifflag a\\fi', 'newthm': art('\\begin{thm}a\\end{thm}', '\\newtheorem{thm}{T}[section]'), 'newenv': art('\\begin{e}a\\end{e}\\begin{quote}b\\end{quote}', '\\newenvironment{e}{(}{)}\\renewenvironment{quote}{[}{]}'),
    'catcodes': '\\catcode`\\%=12 \\catcode`\\@=11 \\catcode`\\|=13 \\def|{x}\\catcode`\\~=12 %a~', 'catcodes0': '\\catcode`\\!=0 \\catcode`\\[=1 \\catcode`\\]=2 \\catcode`\\*=3 !textbf[a] *x*', 'obeylines': '\\makeatletter\\obeylines a\n\nb',
    'active': '\\def~{x}\\catcode`:=\\active \\let:=a :', 'counters': art('\\section{a}', '\\newcounter{my}[section]\\setcounter{section}{7}\\setcounter{page}{9}\\addtocounter{equation}{3}'),
    'appendix': art('\\section{a}\\appendix\\section{b}\\subsection{c}'), 'appendixb': cls('book', '\\chapter{a}\\appendix\\chapter{b}\\section{c}'), 'alias': '\\let\\a\\b \\let\\item\\par \\let\\begin\\relax a',
    'newcol': art('\\begin{tabular}{Pr}a&b\\end{tabular}', '\\newcolumntype{P}{>{x}c}\\newcolumntype{l}{r}'), 'newcoldef': art('a', '\\newcolumntype{c}[1]{p{#1}}'),
    'tabtypes': art('\\begin{tabular}{|r|c@{x}p{3cm}||}a&b&c\\\\\\hline\\cline{1-2}d&e&f\\end{tabular}'), 'colattrs': art('\\usepackage{longtable}\\begin{longtable}{lr}a&b\\endhead c&d\\end{longtable}'),
    'labels': art('\\section{a}\\label{l}\\ref{l} \\ref{m}'), 'bib': art('\\cite{k}\\begin{thebibliography}{9}\\bibitem{k} x\\bibitem[L]{m} y\\end{thebibliography}'), 'index': art('a\\index{b!c}\\index{d}\\printindex', '\\usepackage{makeidx}\\makeindex'),
    'title': art('\\maketitle\\tableofcontents\\section{a}', '\\title{x}\\author{y}\\date{z}'), 'titleonly': '\\title{x}\\author{y}', 'foots': art('a\\footnote{b}\\footnotemark\\footnotetext{c}'), 'notab': art('\\footnotetext{c}a\\thanks{d}'),
    'floats': art('\\begin{figure}\\caption{a}\\label{f}\\end{figure}\\begin{table}\\begin{tabular}{l}a\\end{tabular}\\caption{b}\\end{table}'), 'math': art('$a$\\begin{equation}b\\label{e}\\end{equation}\\[c\\]\\begin{eqnarray}d&e&f\\\\g&&h\\nonumber\\end{eqnarray}'),
    'lists': art('\\begin{enumerate}\\item a\\begin{itemize}\\item[x] b\\end{itemize}\\item c\\setcounter{enumi}{5}\\item d\\end{enumerate}\\begin{description}\\item[e] f\\end{description}'),
    'newlist': art('\\begin{my}\\item a\\end{my}', '\\newenvironment{my}{\\begin{list}{-}{\\leftmargin=3pt}}{\\end{list}}'), 'chars': '``a\'\'---\\\'e\\ss\\o\\char65 \\"u',
    # classes and packages
    'book': cls('book', '\\part{p}\\chapter{a}\\section{b}\\begin{figure}\\caption{c}\\end{figure}\\begin{thebibliography}{9}\\bibitem{k} x\\end{thebibliography}'), 'report': cls('report', '\\chapter{a}\\section{b}\\begin{equation}x\\end{equation}'),
    'letter': cls('letter', '\\begin{letter}{x}a\\end{letter}'), 'beamer': cls('beamer', '\\begin{frame}{t}\\begin{itemize}\\item<1> a\\item b\\end{itemize}\\alert{x}\\end{frame}\\frame{b}\\section{c}'), 'amsart': cls('amsart', '\\section{a}\\begin{proof}b\\end{proof}'), 'memoir': cls('memoir', '\\chapter{a}b'), 'artopts': '\\documentclass[12pt,twocolumn,a4paper]{article}\\begin{document}\\section{a}\\end{document}',
    'amsbook': cls('amsbook', '\\chapter{a}\\section{b}'), 'jss': cls('jss', 'a'), 'unknowncls': cls('nosuchclass', 'a'), 'unknownpkg': art('a', '\\usepackage{nosuchpackage}'),
    'ifthen': art('\\ifthenelse{\\equal{a}{a}\\and\\(\\isodd{1}\\or 1<2\\)}{y}{n}\\newboolean{b}\\setboolean{b}{true}\\ifthenelse{\\boolean{b}}{y}{n}\\whiledo{\\value{x}<2}{\\stepcounter{x}.}', '\\usepackage{ifthen}\\newcounter{x}'), 'ifthen2': art('\\ifthenelse{\\lengthtest{\\parindent<3pt}}{y}{n}', '\\usepackage{ifthen}'),
    'hyperref': art('\\href{http://x/~y}{z}\\url{http://a%b}\\autoref{l}\\section{s}\\label{l}\\hyperlink{h}{i}\\hypertarget{h}{j}', '\\usepackage[colorlinks]{hyperref}\\hypersetup{pdftitle=x}'), 'color': art('\\color{red}\\textcolor{blue}{a}\\definecolor{red}{rgb}{0,1,0}\\textcolor{red}{b}\\colorbox{green}{c}', '\\usepackage{color}'), 'xcolor': art('\\colorlet{red}{blue}\\textcolor{red!20}{a}\\definecolor{foo}{HTML}{112233}\\color{foo} b', '\\usepackage[dvipsnames]{xcolor}'),
    'graphicx': art('\\includegraphics[width=3cm]{nofile}', '\\usepackage{graphicx}\\graphicspath{{a/}{b/}}\\DeclareGraphicsExtensions{.x}'), 'natbib': art('\\citet{k}\\citep[a][b]{k}\\begin{thebibliography}{9}\\bibitem[A(2000)]{k} x\\end{thebibliography}', '\\usepackage[square,sort,sectionbib]{natbib}\\bibpunct{[}{]}{,}{n}{}{;}'), 'amsthm': art('\\begin{t}a\\end{t}\\begin{proof}[q]b\\qedhere\\end{proof}', '\\usepackage{amsthm}\\theoremstyle{definition}\\newtheorem{t}{T}\\newtheorem*{u}{U}\\renewcommand{\\qedsymbol}{Q}'),
    'amsmath': art('\\begin{align}a&=b\\\\c&=d\\tag{x}\\end{align}\\begin{gather*}a\\end{gather*}\\eqref{z}$\\foo x\\text{a $b$}$\\begin{equation}\\begin{split}a\\end{split}\\end{equation}', '\\usepackage{amsmath}\\DeclareMathOperator{\\foo}{foo}\\numberwithin{equation}{section}'), 'babelfr': art('\\chaptername\\today\\abstractname\\selectlanguage{german}\\today', '\\usepackage[french]{babel}'), 'babelen': art('\\begin{otherlanguage}{french}\\figurename\\end{otherlanguage}\\figurename', '\\usepackage[german,english]{babel}'),
    'listings': art('\\begin{lstlisting}[language=Python]\nx=1\n\\end{lstlisting}\\lstinline|a|', '\\usepackage{listings}\\lstset{language=C,numbers=left}\\lstdefinelanguage{my}{x=y}'), 'enumeratep': art('\\begin{enumerate}[(a)]\\item a\\end{enumerate}\\begin{enumerate}[I.]\\item b\\end{enumerate}', '\\usepackage{enumerate}'), 'floatp': art('\\begin{prog}a\\caption{b}\\end{prog}', '\\usepackage{float}\\newfloat{prog}{h}{lop}[section]\\floatname{prog}{P}'),
    'longtable': art('\\begin{longtable}{ll}\\caption{c}\\\\a&b\\endhead c&d\\endfoot e&f\\end{longtable}', '\\usepackage{longtable}'), 'tabularx': art('\\begin{tabularx}{3cm}{Xl}a&b\\end{tabularx}', '\\usepackage{tabularx}'), 'subfig': art('\\begin{figure}\\subfloat[a]{b}\\caption{c}\\end{figure}', '\\usepackage{subfig}'), 'caption': art('\\begin{figure}a\\caption*{b}\\captionof{table}{c}\\end{figure}', '\\usepackage{caption}'), 'cleveref': art('\\section{a}\\label{s}\\cref{s}\\Cref{s}', '\\usepackage{cleveref}\\crefname{section}{S}{SS}'),
    'todonotes': art('a\\todo{b}', '\\usepackage[disable]{todonotes}'), 'fancyvrb': art('\\begin{Verbatim}[commandchars=\\\\\\{\\}]\na\\textbf{b}\n\\end{Verbatim}', '\\usepackage{fancyvrb}\\DefineShortVerb{\\|}'), 'shortvrb': art('|a%b| \\DeleteShortVerb{\\|} | a', '\\usepackage{shortvrb}\\MakeShortVerb{\\|}'), 'comment': art('a\\begin{comment}b\\end{comment}\\begin{c}d\\end{c}', '\\usepackage{comment}\\excludecomment{c}'), 'xspace': art('\\x a', '\\newcommand\\x{y\\xspace}'),
    'imakeidx': art('\\index{a}\\index[n]{b}\\printindex[n]', '\\usepackage{imakeidx}\\makeindex\\makeindex[name=n]'), 'multicol': art('\\begin{multicols}{2}a\\end{multicols}', '\\usepackage{multicol}'), 'minitoc': cls('report', '\\dominitoc\\tableofcontents\\chapter{a}\\minitoc\\section{b}', '\\usepackage{minitoc}'), 'tikz': art('\\begin{tikzpicture}\\draw (0,0);\\end{tikzpicture}', '\\usepackage{tikz}\\usetikzlibrary{arrows}'), 'html': art('\\begin{rawhtml}<b>\\end{rawhtml}\\latexhtml{a}{b}', '\\usepackage{html}'), 'alltt': art('\\begin{alltt}a%\\textbf{b}\\end{alltt}', '\\usepackage{alltt}'), 'setspace': art('\\doublespacing a\\onehalfspacing b', '\\usepackage{setspace}'), 'wrapfig': art('\\begin{wrapfigure}{r}{3cm}a\\caption{b}\\end{wrapfigure}', '\\usepackage{wrapfig}'), 'url': art('\\url{a%b_c}\\path|x|', '\\usepackage{url}\\urlstyle{tt}'), 'nameref': art('\\section{a}\\label{s}\\nameref{s}', '\\usepackage{nameref}'), 'lipsum': art('\\lipsum[1]', '\\usepackage{lipsum}'), 'textpos': art('\\begin{textblock}{1}(1,1)a\\end{textblock}', '\\usepackage{textpos}\\TPGrid{1}{1}'), 'geometry': art('a', '\\usepackage[margin=1cm]{geometry}\\geometry{top=3cm}'), 'fancyhdr': art('a', '\\usepackage{fancyhdr}\\pagestyle{fancy}\\lhead{x}'), 'rotating': art('\\begin{sidewaysfigure}a\\end{sidewaysfigure}\\rotatebox{3}{b}', '\\usepackage{rotating}'), 'verse': art('\\begin{verse}a\\\\b\\end{verse}', '\\usepackage{verse}\\setlength{\\vleftskip}{3em}'), 'embed': art('a', '\\usepackage{embed}'), 'keyval': '\\RequirePackage{keyval} a',
    'longpreamble': art('a', '\\AtBeginDocument{b}\\AtEndDocument{c}\\pagenumbering{roman}\\pagestyle{empty}\\hyphenation{a-b}\\sloppy\\flushbottom'),
    'optargs': art('\\\\[3pt]a\\\\*b\\section*{c}\\section[d]{e}\\item[f]\\rule[2pt]{1pt}{2pt}\\hspace*{1cm}\\vspace{2cm}\\makebox[1cm][l]{a}\\parbox[t]{1cm}{b}\\raisebox{1pt}[2pt][3pt]{c}'),
    'picture': art('\\begin{picture}(10,10)(0,0)\\put(1,2){a}\\line(1,0){3}\\unitlength=3pt\\end{picture}'), 'tabbing': art('\\begin{tabbing}a\\=b\\\\c\\>d\\end{tabbing}'), 'boxes': '\\setbox0\\hbox{a}\\box0 \\newsavebox{\\x}\\sbox{\\x}{b}\\usebox{\\x}\\savebox{\\x}{c}\\hbox to 3pt{d}\\vbox{e}', 'fonts': '\\font\\x=cmr10 \\x a {\\tt b}\\normalfont c\\fontsize{3}{4}\\selectfont d', 'marks': art('\\markboth{a}{b}\\thispagestyle{plain}\\pagebreak\\linebreak[3]c'),
    'relax': 'a', 'empty': '', 'unknown': 'a \\unknown{b} \\begin{nosuch}c\\end{nosuch}', 'toomany': 'a } b } \\end{itemize} \\fi \\else \\endgroup', 'badend': art('\\begin{itemize}\\item a\\end{enumerate} b'), 'badmath': art('a_b^c & # d \\hline \\item e'), 'error': '\\message{a}\\errmessage{b}\\typeout{c}\\immediate\\write16{d}',
    'recursion': '\\def\\a#1{\\ifnum #1>0 x\\expandafter\\a\\expandafter{\\number\\numexpr #1-1\\relax}\\fi}\\a{0}', 'endinput': 'a \\endinput b', 'enddoc': art('a\\end{document}b'), 'romannum': '\\romannumeral 14 \\uppercase{abc}\\lowercase{DEF}\\string\\x\\meaning\\x\\jobname', 'ccode': '\\uccode`a=`z \\lccode`A=`q \\sfcode`a=3 \\mathcode`a=4 \\delcode`a=5 a',
    'newlanguage': art('a', '\\newlanguage\\foo\\language=3 \\lefthyphenmin=7 '), 'everypar': '\\everypar={x}\\everymath={y}\\output={z} a',
}

PKGS = []
with contextlib.suppress(Exception):
    _d = os.path.join(os.environ.get('MC_REPO', '/repo'), 'plasTeX', 'Packages')
    PKGS = sorted(f[:-3] for f in os.listdir(_d) if f.endswith('.py') and f != '__init__.py')
CLASSES = {'article', 'book', 'report', 'amsart', 'amsbook', 'beamer', 'memoir', 'jss', 'debugplastex', 'quotchap'}
for _p in PKGS:
    if _p not in CLASSES:
        HIST.setdefault('pkg:' + _p, art('a', '\\usepackage{%s}' % _p))

# documents that show something
PROBE = {
    'registers': '|'.join('\\the' + r for r in ('\\parindent', '\\parskip', '\\tolerance', '\\thinmuskip', '\\baselineskip', '\\hsize', '\\year', '\\escapechar', '\\endlinechar', '\\hyphenpenalty', '\\uchyph', '\\tabskip', '\\linewidth', '\\textwidth')) + ' \\parindent 3pt \\the\\parindent \\dimen0=\\parskip \\the\\dimen0 \\ifdim\\parindent=3pt y\\else n\\fi',
    'arraycols': art('\\begin{tabular}{lrcp{2cm}X}a&b&c&d&e\\\\f&g&h&i&j\\end{tabular}\\begin{tabular}{|d{.}|J}a&b\\end{tabular}$\\begin{array}{cl}a&b\\end{array}$ \\the\\tabcolsep\\the\\arraycolsep\\the\\arrayrulewidth'),
    'lists': art('\\begin{enumerate}\\item a\\label{a}\\begin{enumerate}\\item b\\label{b}\\begin{enumerate}\\item c\\label{c}\\begin{enumerate}\\item d\\label{d}\\end{enumerate}\\end{enumerate}\\end{enumerate}\\item<2> e\\label{e}\\end{enumerate}\\ref{a}\\ref{b}\\ref{c}\\ref{d}\\ref{e}\\begin{itemize}\\item[x] y\\item z\\begin{itemize}\\item w\\end{itemize}\\end{itemize}\\begin{description}\\item[u] v\\end{description}'),
    'math': art('$a$ b $$c$$ d \\(e\\) f \\[g\\] h $i\\mbox{j $k$ l}m$ n \\begin{equation}o\\label{o}\\end{equation}\\ref{o}\\begin{eqnarray}a&=&b\\\\c&=&d\\end{eqnarray}``q\'\' $``r\'\'--$'),
    'article': art('\\maketitle\\tableofcontents\\section{a}\\label{a}\\subsection{b}\\label{b}\\ref{a}\\ref{b}\\section*{c}\\begin{figure}\\caption{f}\\label{f}\\end{figure}\\ref{f}\\paragraph{p}q\\begin{thebibliography}{9}\\bibitem{k} l\\end{thebibliography}\\cite{k}\\thesection|\\thesubsection|\\thefigure|\\theequation|\\thepage|\\today', '\\title{t}'),
    'book': cls('book', '\\part{p}\\chapter{a}\\label{a}\\section{b}\\label{b}\\ref{a}\\ref{b}\\begin{figure}\\caption{f}\\label{f}\\end{figure}\\ref{f}\\begin{equation}x\\label{x}\\end{equation}\\ref{x}\\begin{thebibliography}{9}\\bibitem{k} l\\end{thebibliography}\\cite{k}\\appendix\\chapter{z}\\label{z}\\section{y}\\label{y}\\ref{z}\\ref{y}\\index{i}\\printindex', '\\usepackage{makeidx}\\makeindex'),
    'ifthen': art('\\ifthenelse{\\equal{a}{a}\\and\\(\\isodd{2}\\or 1<2\\)}{y}{n}\\(a\\)\\[b\\]\\newboolean{b}\\ifthenelse{\\boolean{b}}{y}{n}', '\\usepackage{ifthen}'),
    'macros': '\\newif\\ifflag\\ifflag a\\else b\\fi \\newcount\\cc \\the\\cc \\newdimen\\dd \\the\\dd \\textbf{x}\\emph{y}~%z\n| @ : ! \\char65 \\verb|a%b| {\\it c} \\def\\x#1{#1#1}\\x{d}\\uppercase{a}\\lowercase{A}\\string\\x',
    'names': art('\\figurename|\\tablename|\\contentsname|\\refname|\\abstractname|\\indexname|\\today|\\partname|\\appendixname\\begin{abstract}a\\end{abstract}\\begin{figure}\\caption{b}\\end{figure}'),
    'options': art('\\section*{a}\\section[b]{c}\\\\[3pt]d\\\\*e\\hspace*{1cm}\\vspace{2cm}\\makebox[1cm][l]{f}\\rule[1pt]{2pt}{3pt}\\parbox[t]{3cm}{g}\\footnote[7]{h}\\footnote{i}\\linebreak[2]j\\begin{figure}[h]k\\end{figure}\\begin{minipage}[t]{3cm}l\\end{minipage}'),
    'pkgs': art('\\begin{t}a\\end{t}\\begin{proof}b\\end{proof}\\textcolor{red}{c}\\citet{k}\\citep{k}\\begin{align}a&b\\\\c&d\\end{align}\\begin{thebibliography}{9}\\bibitem[A(2000)]{k} x\\end{thebibliography}\\begin{lstlisting}\nx\n\\end{lstlisting}\\href{u}{v}', '\\usepackage{amsmath,amsthm,xcolor,natbib,listings,hyperref,graphicx}\\newtheorem{t}{T}'),
    'theorems': art('\\begin{thm}a\\label{t}\\end{thm}\\begin{quote}b\\end{quote}\\begin{verbatim}\nc%\n\\end{verbatim}\\ref{t}\\begin{center}d\\end{center}\\begin{verse}e\\end{verse}\\begin{picture}(1,2)\\put(0,0){f}\\end{picture}', '\\newtheorem{thm}{T}[section]\\newcounter{x}[section]'),
    'beamer': cls('beamer', '\\begin{frame}{t}\\begin{itemize}\\item<1-2> a\\item b\\end{itemize}\\end{frame}'),
    'quotes': art('\\section{a ``b\'\' c--d}``e\'\' f---g `h\' \\textbf{i--j}'),
    'amsart': cls('amsart', '\\section{a}\\begin{proof}b\\end{proof}\\begin{thebibliography}{9}\\bibitem{k} x\\end{thebibliography}\\thesection'),
    'open': art('\\begin{enumerate}\\item a $b'),
    'babel': art('\\figurename\\contentsname\\today', '\\usepackage[french]{babel}'), 'longtable': art('\\begin{longtable}{ll}a&b\\endhead c&d\\end{longtable}\\begin{tabularx}{3cm}{Xl}a&b\\end{tabularx}', '\\usepackage{longtable,tabularx}'),
    'report': cls('report', '\\chapter{a}\\section{b}\\label{b}\\ref{b}\\thesection\\index{x}\\printindex'),
    'color': art('\\textcolor{red}{a}\\definecolor{foo}{rgb}{1,0,0}\\textcolor{foo}{b}\\color{blue} c', '\\usepackage{color}'),
    'cleveref': art('\\section{a}\\label{s}\\cref{s}\\Cref{s}\\autoref{s}', '\\usepackage{hyperref,cleveref}'),
    'floatp': art('\\begin{figure}\\subfloat[a]{b}\\caption{c}\\end{figure}\\begin{table}\\caption{d}\\end{table}', '\\usepackage{float,subfig,caption}'),
    'lipsum': art('\\lipsum[2]', '\\usepackage{lipsum}'),
    'verb': art('\\begin{Verbatim}\na|b\n\\end{Verbatim}|c| \\lstinline|x|', '\\usepackage{fancyvrb,listings,shortvrb}'),
}
# documents processed with a configuration of their own
CONF = {
    'h:conf-quotes': ("``a'' b--c---d `e' ", {('document', 'disable-charsub'): ["``", "''"]}), 'h:conf-dashes': ("``a'' b--c---d `e' ", {('document', 'disable-charsub'): ['--', '---', '`']}),
    'h:conf-counters': (art('\\section{a}\\section{b}'), {('counters', 'counters'): {'section': 5, 'equation': 3}}),
    'h:conf-depth': (art('\\tableofcontents\\section{a}\\subsection{b}'), {('document', 'sec-num-depth'): 0, ('document', 'toc-depth'): 1, ('document', 'toc-non-files'): True}),
    'h:conf-links': (art('\\section{a}\\subsection{b}'), {('links', 'links'): {'next-url': 'http://x', 'next-title': 't', 'mylink-title': 'u'}}),
    'h:conf-index': (art('a\\index{b}\\index{c}\\printindex', '\\usepackage{makeidx}\\makeindex'), {('document', 'index-columns'): 1}),
    'h:conf-base': (art('\\section{a}\\label{b}\\ref{b}'), {('document', 'base-url'): 'http://x/', ('document', 'title'): 'T', ('files', 'split-level'): 1, ('files', 'filename'): 'x [$title, n$num(3)]'}),
}
DOCS = dict(('h:' + k, v) for k, v in HIST.items())
DOCS.update((k, v[0]) for k, v in CONF.items())
DOCS.update(('p:' + k, v) for k, v in PROBE.items())


# ------------------------------------------------------------- results

def _canon(s):
    names = {}
    s = re.sub(r'0x[0-9a-f]{6,}', '0x', s)
    return re.sub(r'\ba\d{10}\b', lambda m: names.setdefault(m.group(), '<id%d>' % len(names)), s)


def dump(doc):
    from plasTeX.DOM import Node
    out = []
    seen = {}

    def val(v, depth):
        if isinstance(v, Node):
            node(v, depth)
        elif isinstance(v, dict):
            for k in sorted(v, key=str):
                out.append('%s{%s:' % (' ' * depth, k))
                val(v[k], depth + 1)
        elif isinstance(v, (list, tuple)):
            for x in v:
                val(x, depth + 1)
        else:
            out.append('%s=%s %s' % (' ' * depth, type(v).__name__, v))

    def node(n, depth):
        if n.nodeType == Node.TEXT_NODE or isinstance(n, str):
            out.append('%s%r' % (' ' * depth, str(n)))
            return
        if id(n) in seen:
            out.append('%s^%d' % (' ' * depth, seen[id(n)]))
            return
        seen[id(n)] = len(seen)
        out.append('%s%s' % (' ' * depth, n.nodeName))
        for k in ('level', 'counter', 'blockType', 'position', 'columnAttributes', 'forcePars', 'mathMode', 'id', 'str', 'linkType', 'captionName'):
            try:
                v = getattr(n, k, None)
            except Exception as e:
                v = type(e).__name__
            if v is not None and not callable(v):
                out.append('%s.%s' % (' ' * depth, k))
                val(v, depth + 1)
        for k in ('ref', 'title'):
            try:
                v = getattr(n, k, None)
            except Exception as e:
                v = type(e).__name__
            if v is not None:
                out.append('%s.%s' % (' ' * depth, k))
                val(v, depth + 1)
        st = getattr(n, 'style', None)
        if st:
            out.append('%s.style %s' % (' ' * depth, sorted(st.items()) if isinstance(st, dict) else st))
        a = getattr(n, 'attributes', None)
        if a:
            for k in a:
                out.append('%s@%s' % (' ' * depth, k))
                val(a[k], depth + 1)
        for c in n.childNodes:
            node(c, depth + 1)
    node(doc, 0)
    ctx = doc.context
    out.append('counters ' + ' '.join('%s=%s' % (k, int(ctx.counters[k].value)) for k in sorted(ctx.counters)))
    out.append('labels ' + ' '.join(sorted(ctx.labels)))
    out.append('userdata ' + ' '.join(sorted(map(str, doc.userdata))))
    return _canon('\n'.join(out))


def process(src, conf=None):
    """The canonical result of a document."""
    from plasTeX.TeX import TeX
    logging.disable(logging.CRITICAL)
    try:
        if conf:
            from plasTeX import TeXDocument
            from plasTeX.Config import defaultConfig
            c = defaultConfig()
            for (a, b), v in conf.items():
                c[a][b] = v
            tex = TeX(TeXDocument(config=c))
        else:
            tex = TeX()
        tex.input(src)
        doc = tex.parse()
        res = dump(doc)
        try:
            res += '\n' + _canon(doc.toXML())
        except Exception as e:
            res += '\ntoXML: %s' % type(e).__name__
        return res
    except Exception as e:
        return 'raises %s: %s' % (type(e).__name__, str(e)[:200])


def process_rendered(src, rend, settings=None):
    """The files a document is rendered to."""
    from checks import c20
    logging.disable(logging.CRITICAL)
    d = tempfile.mkdtemp(prefix='mc17')
    old = os.getcwd()
    try:
        os.chdir(d)
        with open('doc.tex', 'w') as f:
            f.write(src)
        from plasTeX.Compile import run
        conf = c20.config(rend, 2)
        for (a, b), v in (settings or {}).items():
            conf[a][b] = v
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            run('doc.tex', conf)
        res = []
        for top, dirs, files in os.walk(d):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(top, f)
                if f.endswith(('.html', '.xhtml', '.css', '.xml', '.txt', '.svg')) and 'doc.tex' != f:
                    with open(p, errors='replace') as fh:
                        res.append('== %s\n%s' % (os.path.relpath(p, d), fh.read()))
                else:
                    res.append('== %s' % os.path.relpath(p, d))
        return _canon('\n'.join(res))
    except Exception as e:
        return 'raises %s: %s' % (type(e).__name__, str(e)[:200])
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------- interpreter state

SIMPLE = (str, int, float, bool, bytes, type(None))
SKIP = {'__doc__', '__module__', '__qualname__', '__name__', '__file__', '__package__', '__path__', '__cached__', '__slots__', '__annotations__', '__builtins__',
        '__firstlineno__', '__static_attributes__', '__loader__', '__spec__', '__weakref__', '__dict__', '__warningregistry__', '__abstractmethods__', '_abc_impl', '__parameters__', '__orig_bases__'}


def value(v, depth=0):
    if isinstance(v, (int, float)) and type(v) not in (int, float, bool):
        return (type(v).__name__, float(v), tuple(sorted((k, str(x)) for k, x in getattr(v, '__dict__', {}).items() if not k.startswith('@'))))
    if isinstance(v, SIMPLE):
        return (type(v).__name__, v)
    if depth > 3:
        return type(v).__name__
    if isinstance(v, dict):
        return (type(v).__name__, tuple((value(k, depth + 1), value(x, depth + 1)) for k, x in list(v.items())[:400]), len(v))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(value(x, depth + 1) for x in list(v)[:400]), len(v))
    if isinstance(v, (set, frozenset)):
        return (type(v).__name__, tuple(sorted(map(repr, v))), len(v))
    if isinstance(v, type):
        return ('class', v.__module__, v.__qualname__, id(v))
    return ('object', type(v).__name__, id(v))


def snapshot():
    res = {}
    done = set()

    def klass(c):
        if id(c) in done:
            return
        done.add(id(c))
        for k, v in list(vars(c).items()):
            if k in SKIP or k.startswith('@') or 'cache' in k.lower() or 'memo' in k.lower():
                continue
            res[(c.__module__, c.__qualname__, k)] = value(v)
            if isinstance(v, type) and v.__module__.startswith('plasTeX'):
                klass(v)
    for name in sorted(sys.modules):
        if name != 'plasTeX' and not name.startswith('plasTeX.'):
            continue
        m = sys.modules[name]
        if m is None or name.startswith('plasTeX.Logging'):
            continue
        for k, v in list(vars(m).items()):
            if k in SKIP or 'cache' in k.lower() or 'memo' in k.lower():
                continue
            if isinstance(v, type):
                if v.__module__.startswith('plasTeX') and not v.__module__.startswith('plasTeX.Logging'):
                    klass(v)
                    res[(name, '', k)] = value(v)
            elif isinstance(v, type(sys)):
                continue
            else:
                res[(name, '', k)] = value(v)
    return res


def differences(a, b):
    out = []
    for k in a:
        if k not in b:
            out.append('%s.%s.%s is gone' % k)
        elif a[k] != b[k]:
            out.append('%s.%s.%s: %.80s instead of %.80s' % (k + (b[k], a[k])))
    mods = {(k[0], k[1]) for k in a}
    for k in b:
        if k not in a and (k[0], k[1]) in mods and not k[2].startswith('_'):
            out.append('%s.%s.%s is new (%.80s)' % (k + (b[k],)))
    return out


def importall():
    import importlib
    for p in PKGS:
        with contextlib.suppress(Exception):
            importlib.import_module('plasTeX.Packages.' + p)


# ------------------------------------------------------------- execution

def forked(fn, limit=60):
    """fn() in a fork of this interpreter."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(limit)
            try:
                res = fn()
            except BaseException as e:
                res = ['!', '%s: %s' % (type(e).__name__, e)]
            with os.fdopen(w, 'wb') as f:
                f.write(json.dumps(res).encode())
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
    finally:
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
    if not data:
        return None
    return json.loads(data.decode())


_alone = {}


def alone(key, rend=None):
    """What a fresh interpreter makes of a document, twice."""
    # (shared by the workers of a run)
    name = os.path.join(core.SCRATCH, 'alone-%s-%s' % (key.encode().hex(), rend)) if core.SCRATCH else None
    if (key, rend) not in _alone and name and os.path.exists(name):
        with open(name) as f:
            _alone[key, rend] = f.read()
    if (key, rend) not in _alone:
        code = ('import sys, json, os; sys.path[:0] = %r\nfrom checks import c17\n'
                'r = c17.work(sys.argv[1], sys.argv[2])\n'
                'sys.stdout.flush(); os.write(3, json.dumps([r]).encode())' % [p for p in sys.path if p])
        r, w = os.pipe()
        try:
            p = subprocess.Popen([sys.executable, '-c', code.replace('os.write(3', 'os.write(%d' % w), key, rend or ''], pass_fds=(w,), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        finally:
            os.close(w)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        p.wait()
        _alone[key, rend] = json.loads(data.decode())[0] if data else 'raises: no result'
        if name and data:
            with open('%s-%d' % (name, os.getpid()), 'w') as f:
                f.write(_alone[key, rend])
            os.rename('%s-%d' % (name, os.getpid()), name)
    return _alone[key, rend]


def work(key, rend):
    if rend:
        return process_rendered(DOCS[key], rend, CONF[key][1] if key in CONF else None)
    return process(DOCS[key], CONF[key][1] if key in CONF else None)


def first_difference(want, got):
    a, b = want.split('\n'), got.split('\n')
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else '(end)'
        y = b[i] if i < len(b) else '(end)'
        if x != y:
            return '%.100r instead of %.100r' % (y.strip(), x.strip())
    return 'nothing'


def show(seq):
    return '; '.join(DOCS[k][:300] for k in seq)


_before = None


def setup_state():
    """(The last space: this interpreter has seen a document from now on.)"""
    global _before
    process(DOCS['h:relax'])
    importall()
    _before = snapshot()


def run_state(key, cx):
    def go():
        res = work(key, '')
        if res.startswith('raises'):
            return ['raises', res]
        return ['ok', differences(_before, snapshot())]
    r = forked(go)
    if r is None or r[0] == '!':
        return Violation('%s: no result (%s)' % (show([key]), r and r[1]))
    if r[0] == 'raises':
        cx.count('ends in an exception', 1)
        return None
    if r[1]:
        return Violation('after %r: %s' % (DOCS[key][:400], '; '.join(r[1][:4])))
    cx.state('initial')
    cx.trans(1)
    cx.trace(1)
    cx.count('values compared', len(_before))
    cx.outcome(key)


def run_seq(case, cx):
    """case: [prefix, the documents that follow it one at a time, rendered?]"""
    prefix, nexts, rend = case

    def go():
        for k in prefix:
            if work(k, rend or '').startswith('raises'):
                return ['raises', k]
        out = []
        for k in nexts:
            out.append(forked(lambda: ['ok', work(k, rend or '')]) or ['?', 'no result'])
        return ['ok', out]
    r = forked(go, 300)
    if r is None or r[0] == '!':
        return Violation('%r: no result (%s)' % (show(prefix), r and r[1]))
    if r[0] == 'raises':
        cx.count('ends in an exception', 1)
        if not alone(r[1], rend).startswith('raises'):
            return Violation('%r raises an exception, but not alone' % show(prefix))
        return None
    for k, x in zip(nexts, r[1]):
        want = alone(k, rend)
        if want.startswith('raises: no'):
            return Violation('%r: no result' % show([k]))
        if x[1] != want:
            return Violation('%r, processed after %r, differs: %s' % (DOCS[k][:300], show(prefix), first_difference(want, x[1])))
        cx.trans(len(prefix) + 1)
        cx.trace(1)
        cx.outcome((tuple(prefix), k))
        cx.state((k, want[:2000]))


def run_long(case, cx):
    """All documents of a sequence in one interpreter."""
    seq, probe_every = case

    def go():
        out = []
        for k in seq:
            out.append(work(k, ''))
        return ['ok', out]
    r = forked(go, 600)
    if r is None or r[0] == '!':
        return Violation('%r...: no result (%s)' % (show(seq[:3]), r and r[1]))
    for i, (k, got) in enumerate(zip(seq, r[1])):
        want = alone(k)
        if got != want:
            return Violation('%r, processed after %d documents ending in %r, differs: %s' % (DOCS[k][:300], i, show(seq[max(0, i - 1):i]), first_difference(want, got)))
        if got.startswith('raises'):
            # no history
            cx.count('ends in an exception', 1)
            return None
    cx.trans(len(seq))
    cx.trace(1)
    cx.outcome(tuple(seq))
    cx.state(tuple(seq))


CORE = ['h:parindent', 'h:tolerance', 'h:missing', 'h:open$', 'h:openmbox', 'h:openenum', 'h:opengroup', 'h:opencond', 'h:newif', 'h:catcodes', 'h:newcol', 'h:appendix', 'h:ifthen', 'h:natbib',
        'h:book', 'h:babelfr', 'p:beamer', 'h:amsthm', 'h:active', 'h:renew']
CORE2 = ['h:parindent', 'h:openmbox', 'h:openenum', 'p:beamer', 'h:ifthen', 'h:babelfr', 'h:newcol', 'h:missing', 'h:appendixb']
RHIST = ['h:parindent', 'h:open$', 'h:openenum', 'h:newcol', 'h:appendix', 'h:book', 'h:babelfr', 'h:amsthm', 'h:natbib', 'h:hyperref', 'h:title', 'h:index', 'h:bib', 'h:xcolor', 'h:foots', 'h:beamer', 'h:todonotes', 'h:graphicx', 'h:listings', 'h:minitoc'] + list(CONF)
RPROBE = ['p:article', 'p:book', 'p:lists', 'p:pkgs', 'p:math', 'p:arraycols', 'p:names', 'p:beamer', 'p:cleveref', 'p:options', 'p:theorems', 'p:quotes']


def cases_state(tier):
    return list(DOCS)


def cases_pairs(tier):
    probes = ['p:' + k for k in PROBE]
    out = [([k], (probes[:12] if tier == 'quick' and k.startswith('h:pkg:') else probes) + [k], None) for k in DOCS]
    if tier != 'quick':
        allk = list(DOCS)
        out += [([k], allk[i:i + 40], None) for k in DOCS for i in range(0, len(allk), 40)]
    return out


def cases_deep(tier):
    probes = ['p:registers', 'p:lists', 'p:math', 'p:article', 'p:arraycols']
    out = [(list(p), probes + ['p:book', 'p:names', 'p:ifthen'], None) for p in itertools.product(CORE, repeat=2)]
    core = CORE2[:5] if tier == 'quick' else CORE2
    out += [(list(p), probes, None) for p in itertools.product(core if tier == 'quick' else CORE, repeat=3)]
    out += [(list(p), probes[:3], None) for p in itertools.product(core[:4] if tier == 'quick' else core, repeat=4)]
    return out


def cases_long(tier):
    good = [k for k in DOCS if k not in RAISES]
    out = []
    n = len(good)
    import math
    strides = [s for s in range(1, n) if math.gcd(s, n) == 1][:8 if tier == 'quick' else 60]
    for s in strides:
        out.append(([good[(i * s) % n] for i in range(n)], 0))
        if tier != 'quick':
            out.append(([good[(i * s) % n] for i in range(n)][::-1], 0))
    return out


def cases_render(tier):
    out = []
    for rend in ('HTML5', 'XHTML'):
        for h in (RHIST if tier == 'quick' else ['h:' + k for k in HIST if not k.startswith('pkg:')] + list(CONF)):
            out.append(([h], RPROBE, rend))
        for p in (itertools.product(RHIST[:6], repeat=2) if tier != 'quick' else []):
            out.append((list(p), RPROBE[:6], rend))
    return out


RAISES = {'h:fancyvrb', 'h:error'}


def setup():
    import plasTeX.TeX  # nothing may be processed in this interpreter


def setup_render():
    pass


def spaces(tier):
    return [
        FnSpace('pairs', 'all pairs of %d documents and %d probes (and itself)' % (len(DOCS), len(PROBE)) if tier == 'quick' else 'all pairs of %d documents' % len(DOCS),
                lambda: cases_pairs(tier), run_seq, setup, timeout=400),
        FnSpace('deep', 'all sequences of 2 of %d, of 3 of %d and of 4 of %d documents before probes' % ((len(CORE), 5, 4) if tier == 'quick' else (len(CORE), len(CORE), len(CORE2))),
                lambda: cases_deep(tier), run_seq, setup, timeout=400),
        FnSpace('long', 'long sequences of all documents in one interpreter', lambda: cases_long(tier), run_long, setup, timeout=700),
        FnSpace('render', 'rendered files of all pairs of %d documents and %d probes, HTML5 and XHTML' % (len(RHIST), len(RPROBE)), lambda: cases_render(tier), run_seq, setup_render, timeout=400),
        FnSpace('state', 'all %d documents: values of all class attributes and module values of plasTeX and its packages before and after' % len(DOCS), lambda: cases_state(tier), run_state, setup_state, timeout=100),
    ]
