r"""C12: rendered HTML shows document text as text.

Metamorphic oracle: a document is rendered twice by the real pipeline, with a neutral
word and with an adversarial text in the same place. The HTML trees (elements,
attributes, text, comments) must be the same, except that the word is replaced by the
characters that TeX would print - everywhere, in text and in attributes.

places   every text position x every text, alone
all      documents with a text in every position x renderers, themes, split levels,
         encodings, escaping of high characters
strings  all strings over an alphabet of pieces, in text, titles, captions, cells,
         verbatim material and index entries
pairs    two positions of one document with different texts
"""
import itertools
import re

from mc import htm, plas
from mc.core import FnSpace, Violation

PROP = 'C12'
LEVEL = 'model_checking'
RULE = ('a state is a (position, text, configuration) whose HTML trees were compared; a transition is one text node or attribute value that '
        'shows the text; distinct_nontrivial counts distinct (position, text, configuration)')
ASSUMPTIONS = [
    'HTML is read with html.parser; blanks are collapsed before comparing, except in verbatim material',
    'text in boxes inside mathematics must not change elements and attributes; the source handed to MathJax is not compared',
    'in text, quotes and dashes are substituted as the documentation says (document/disable-charsub is not set)',
    'MathJax delimiters in text are not considered: what a script does with the text is not part of the output',
]

M = 'Zqx'        # the neutral word


def setup():
    htm.setup('plasTeX.Packages.hyperref', 'plasTeX.Packages.longtable', 'plasTeX.Packages.amsthm', 'plasTeX.Packages.amsmath', 'plasTeX.Packages.natbib',
              'plasTeX.Packages.subfig', 'plasTeX.Packages.listings', 'plasTeX.Packages.color', 'plasTeX.Packages.url', 'plasTeX.Packages.float')


# ---------------------------------------------------------------- texts: characters that should be displayed

TEXTS = ['<', '>', '&', '"', "'", '<b>', '</p>', '<script>alert(1)</script>', '&amp;', '&lt;', '&nbsp;', '&#60;', '&#x3c;', '<!-- c -->', '-->', ']]>', '<p> </p>',
         '<td></td>', '&x-width;', '&amp;x-height;&px;', '{{ obj }}', '{% raw %}', '${here}', '$x', '%s %(a)s', '<?php x ?>', '<![CDATA[x]]>', '<!DOCTYPE x>', '" onx="y',
         "' onx='y", '">', "'>", '/>', '<br', '<a href="x">', '=', 'é', 'ßœ', 'Ω→', '日本', '\U0001f600', 'x\u00a0y', '&copy', '&#233;', '#', '_', '^x', '~', '\\', '{', '}', '%', '`x`', '*']
SPECIAL = {'\\': r'\textbackslash{}', '{': r'\{', '}': r'\}', '$': r'\$', '&': r'\&', '%': r'\%', '#': r'\#', '_': r'\_', '^': r'\^{}', '~': r'\textasciitilde{}'}


def tex(s):
    return ''.join(SPECIAL.get(c, c) for c in s)


def shown(s):
    """What the text looks like in running text."""
    s = s.replace('"`', '\u201e').replace('"\'', '\u201c').replace("'", '\u2019').replace('`', '\u2018')
    s = s.replace('---', '\u2014').replace('--', '\u2013')
    return s


def idx(s):
    """In an index entry."""
    return ''.join('"' + c if c in '!@|"' else c for c in s)


# position: (source with %s, kind); kinds: t = text, v = verbatim, i = index entry, r = characters as they are
POS = {
    'text': 'a %s b',
    'first': '%s b',
    'emph': r'a \emph{%s} b',
    'texttt': r'\texttt{%s}',
    'textsc': r'{\scshape %s}',
    'group': '{%s}',
    'mbox': r'\mbox{%s}',
    'fbox': r'\fbox{%s}',
    'makebox': r'\makebox[2cm]{%s}',
    'parbox': r'\parbox{2cm}{%s}',
    'minipage': r'\begin{minipage}{2cm}%s\end{minipage}',
    'sup': r'a\textsuperscript{%s}',
    'marginpar': r'a\marginpar{%s} b',
    'footnote': r'a\footnote{%s} b',
    'footnotetext': r'a\footnotemark b\footnotetext{%s}',
    'quote': r'\begin{quote}%s\end{quote}',
    'quotation': r'\begin{quotation}%s\end{quotation}',
    'verse': r'\begin{verse}%s\end{verse}',
    'center': r'\begin{center}%s\end{center}',
    'flushright': r'\begin{flushright}%s\end{flushright}',
    'item': r'\begin{itemize}\item %s\item b\end{itemize}',
    'enumitem': r'\begin{enumerate}\item a\item %s\end{enumerate}',
    'bullet': r'\begin{itemize}\item[%s] b\end{itemize}',
    'term': r'\begin{description}\item[%s] b\end{description}',
    'description': r'\begin{description}\item[a] %s\end{description}',
    'list': r'\begin{list}{%s}{}\item b\end{list}',
    'cell': r'\begin{tabular}{ll}%s&b\\ c&d\end{tabular}',
    'lastcell': r'\begin{tabular}{|l|p{2cm}|}\hline a&b\\\hline c&%s\\\hline\end{tabular}',
    'multicolumn': r'\begin{tabular}{ll}\multicolumn{2}{c}{%s}\\ c&d\end{tabular}',
    'longtable': r'\begin{longtable}{ll}%s&b\\ c&d\end{longtable}',
    'longtablecaption': r'\begin{longtable}{ll}\caption{%s}\\ a&b\\ c&d\end{longtable}',
    'figure': r'\begin{figure}%s\end{figure}',
    'caption': r'\begin{figure}a\caption{%s}\end{figure}',
    'tablecaption': r'\begin{table}\caption{%s}a\end{table}',
    'shortcaption': r'\begin{figure}a\caption[%s]{b}\end{figure}',
    'subfloat': r'\begin{figure}\subfloat[%s]{a}\caption{b}\end{figure}',
    'subsection': r'\subsection{%s} b',
    'subsubsection': r'\subsubsection{%s} b',
    'paragraph': r'\paragraph{%s} b',
    'section*': r'\section*{%s} b',
    'section': r'\section{%s} b',
    'emphsection': r'\section{a \emph{%s} b} b',
    'shortsection': r'\section[%s]{c} b',
    'theorem': r'\begin{thm}%s\end{thm}',
    'theoremtitle': r'\begin{thm}[%s] b\end{thm}',
    'proof': r'\begin{proof}%s\end{proof}',
    'proofcaption': r'\begin{proof}[%s] b\end{proof}',
    'verb': (r'a \verb+%s+ b', 'v'),
    'verb*': (r'a \verb*+%s+ b', 'v'),
    'verbatim': ('\\begin{verbatim}\na %s b\n\\end{verbatim}', 'v'),
    'verbatimonly': ('\\begin{verbatim}%s\\end{verbatim}', 'v'),
    'verbatiminitem': ('\\begin{itemize}\\item\\begin{verbatim}\n%s\n\\end{verbatim}\\end{itemize}', 'v'),
    'lstlisting': ('\\begin{lstlisting}\n%s\n\\end{lstlisting}', 'v'),
    'lstinline': (r'a \lstinline+%s+ b', 'v'),
    'index': (r'a\index{w %s} b', 'i'),
    'indexshown': (r'a\index{w@v %s} b', 'i'),
    'subindex': (r'a\index{w!%s} b', 'i'),
    'see': (r'a\index{w|see{%s}} b', 'i'),
    'indexemph': (r'a\index{w@\emph{v %s}} b', 'i'),
    'bibitem': (r'\begin{thebibliography}{9}\bibitem{k} %s\end{thebibliography}\cite{k}', 't'),
    'biblabel': (r'\cite{k}\begin{thebibliography}{9}\bibitem[%s]{k} b\end{thebibliography}', 't'),
    'citenote': (r'\cite[%s]{k}\begin{thebibliography}{9}\bibitem{k} b\end{thebibliography}', 't'),
    'href': r'\href{http://x.y/}{%s}',
    'textcolor': r'\textcolor{red}{%s}',
    'hypertarget': r'\hypertarget{t}{%s} \hyperlink{t}{b}',
    'hyperrefarg': r'\section{a}\label{l} \hyperref[l]{%s}',
    'macro': r'\newcommand\mm[1]{(#1)}\mm{%s}',
    'define': r'\newcommand\mm{%s}\mm',
    'underline': r'\underline{%s}',
    'mathtext': (r'$x \mbox{%s} y$', 'm'),
    'dispmath': (r'\[x \mbox{%s} y\]', 'm'),
    'eqnarray': (r'\begin{eqnarray}x&=&\mbox{%s} y\\z\end{eqnarray}', 'm'),
    'equation': (r'\begin{equation}\mbox{%s} y\end{equation}', 'm'),
    'alignmath': (r'\begin{align}\mbox{%s}&y\end{align}', 'm'),
    'titlemath': (r'\section{a $\mbox{%s}$} b', 'm'),
    'abstract': r'\begin{abstract}%s\end{abstract}',
    'title': r'\title{%s}\author{b}\date{c}\maketitle',
    'author': r'\title{a}\author{%s}\date{c}\maketitle',
    'author2': r'\title{a}\author{b\and %s}\date{c}\maketitle',
    'date': r'\title{a}\author{b}\date{%s}\maketitle',
    'thanks': r'\title{a\thanks{%s}}\author{b}\date{c}\maketitle',
    'thmname': r'\newtheorem{zz}{%s}\begin{zz}b\end{zz}',
    'figurename': r'\renewcommand\figurename{%s}\begin{figure}a\caption{b}\end{figure}',
    'sectionnumber': r'\renewcommand\thesection{%s}\section{b}\label{l}c\ref{l}',
    'enumlabel': r'\renewcommand\theenumi{%s}\begin{enumerate}\item b\label{l}\end{enumerate}\ref{l}',
    'appendixname': r'\renewcommand\appendixname{%s}\appendix\section{b} c',
    'indexname': r'\renewcommand\indexname{%s} a',
    'bibname': r'\renewcommand\refname{%s}\begin{thebibliography}{9}\bibitem{k} b\end{thebibliography}',
    'centerline': r'\centerline{%s}',
    'textbf': r'\textbf{%s} \textit{%s} \textsf{%s}',
    'small': r'{\small %s \Large %s}',
    'sentence': r'\textrm{%s}\textup{%s}\textmd{%s}',
    'tabularstar': r'\begin{tabular*}{3cm}{ll}%s&b\\ c&d\end{tabular*}',
    'array': (r'$\begin{array}{l}\mbox{%s}\end{array}$', 'm'),
    'tabularmath': (r'\begin{tabular}{l}$\mbox{%s}$\end{tabular}', 'm'),
    'foot2': r'a\footnote{b}c\footnote{%s\footnote{d}}',
    'itemfoot': r'\begin{itemize}\item a\footnote{%s}\end{itemize}',
    'nested': r'\begin{quote}\begin{itemize}\item\begin{tabular}{l}%s\end{tabular}\end{itemize}\end{quote}',
}
# with packages of their own: preamble || body
POS.update({
    'nat:pre': r'\usepackage{natbib}||\citep[%s][b]{k} BIB',
    'nat:post': r'\usepackage{natbib}||\citep[a][%s]{k} BIB',
    'nat:label': r'\usepackage{natbib}||\citep{k} \citet{k} \begin{thebibliography}{9}\bibitem[%s(2001)]{k} b\end{thebibliography}',
    'nat:year': r'\usepackage{natbib}||\citep{k} \citet*{k} \citeyear{k} \begin{thebibliography}{9}\bibitem[A(%s)]{k} b\end{thebibliography}',
    'nat:text': r'\usepackage{natbib}||\citetext{%s} BIB',
    'nat:numbers': r'\usepackage[numbers]{natbib}||\cite[%s]{k} BIB',
    'nat:punct': r'\usepackage{natbib}||\bibpunct[%s]{(}{)}{;}{a}{,}{,}\citep[a]{k} BIB',
    'hy:href': (r'\usepackage{hyperref}||\href{http://x.y/%s}{b}', 'u'),
    'hy:url': (r'\usepackage{hyperref}||\url{http://x.y/%s}', 'u'),
    'hy:nolinkurl': (r'\usepackage{hyperref}||\nolinkurl{http://x.y/%s}', 'u'),
    'url:url': (r'\usepackage{url}||\url{http://x.y/%s}', 'u'),
    'hy:autoref': r'\usepackage{hyperref}\renewcommand\figurename{%s}||\begin{figure}a\caption{b}\label{l}\end{figure}\autoref{l}',
    'hy:textfield': r'\usepackage{hyperref}||\begin{Form}\TextField{%s}\CheckBox{%s}\ChoiceMenu{%s}{a,b}\PushButton{%s}\end{Form}',
    'hy:texorpdf': r'\usepackage{hyperref}||\section{\texorpdfstring{%s}{b}} b',
    'hy:nameref': r'\usepackage{hyperref,nameref}||\section{%s}\label{l}\nameref{l}',
    'gx:rotatebox': (r'\usepackage{graphicx}||\rotatebox{90}{%s}', 'm'),
    'gx:scalebox': (r'\usepackage{graphicx}||\scalebox{2}{%s}', 'm'),
    'gx:resizebox': (r'\usepackage{graphicx}||\resizebox{2cm}{1cm}{%s}', 'm'),
    'tabbing': ('\\begin{tabbing}a\\=%s\\\\b\\end{tabbing}', 'm'),
    'picture': ('\\begin{picture}(10,10)\\put(1,1){%s}\\end{picture}', 'm'),
    'raisebox': (r'a\raisebox{1pt}{%s}', 'm'),
    'fb:box': r'\usepackage{fancybox}||\shadowbox{%s}\doublebox{%s}\ovalbox{%s}',
    'cb:changebar': r'\usepackage{changebar}||\begin{changebar}%s\end{changebar}',
    'alltt': ('\\usepackage{alltt}||\\begin{alltt}\na %s b\n\\end{alltt}', 'a'),
    'fancyvrb': ('\\usepackage{fancyvrb}||\\begin{Verbatim}\na %s b\n\\end{Verbatim}', 'v'),
    'comment': ('\\usepackage{comment}||\\begin{comment}\na %s b\n\\end{comment}\nb', 'v'),
    'sf:ref': r'\usepackage{subfig}||\begin{figure}\subfloat[%s]{\label{l}a}\caption{b}\end{figure}\subref{l}',
    'sfo:fig': r'\usepackage{subfigure}||\begin{figure}\subfigure[%s]{a}\caption{b}\end{figure}',
    'wf:wrap': r'\usepackage{wrapfig}||\begin{wrapfigure}{r}{2cm}%s\caption{%s}\end{wrapfigure}',
    'fl:float': r'\usepackage{float}\newfloat{prog}{tbp}{lop}\floatname{prog}{%s}||\begin{prog}a\caption{%s}\end{prog}',
    'cl:cref': r'\usepackage{cleveref}||\section{%s}\label{l} \cref{l}',
    'cl:name': r'\usepackage{cleveref}\crefname{section}{%s}{ss}||\section{b}\label{l} \cref{l}',
    'ba:lang': r'\usepackage[english]{babel}||\foreignlanguage{english}{%s}',
    'mt:toc': r'\usepackage{minitoc}||\section{a}\secttoc\subsection{%s} b',
    'todo': r'\usepackage{todonotes}||a\todo{%s} b',
    'ma:note': r'\usepackage{marginnote}||a\marginnote{%s} b',
    'mc:cols': r'\usepackage{multicol}||\begin{multicols}{2}%s\end{multicols}',
    'en:enum': r'\usepackage{enumerate}||\begin{enumerate}[a]\item %s\end{enumerate}',
    'bt:tab': r'\usepackage{booktabs}||\begin{tabular}{ll}\toprule %s&b\\\midrule c&d\\\bottomrule\end{tabular}',
    'tx:tabx': r'\usepackage{tabularx}||\begin{tabularx}{3cm}{lX}%s&b\\ c&d\end{tabularx}',
    'ca:cap': r'\usepackage{caption}||\begin{figure}a\caption*{%s}\end{figure}',
    'ls:caption': ('\\usepackage{listings}||\\begin{lstlisting}[caption={%s},label=q]\na\n\\end{lstlisting}', 't'),
    'ls:lang': ('\\usepackage{listings}||\\begin{lstlisting}[language=Python]\na %s b\n\\end{lstlisting}', 'l'),
    'ls:num': ('\\usepackage{listings}||\\begin{lstlisting}[numbers=left]\na %s b\n\\end{lstlisting}', 'v'),
    'am:newthm': r'\usepackage{amsthm}\theoremstyle{remark}\newtheorem{rem}{%s}||\begin{rem}[%s]b\end{rem}',
    'am:tag': (r'\usepackage{amsmath}||\begin{equation}x\tag{%s}\label{l}\end{equation}\ref{l}', 'm'),
    'am:text': (r'\usepackage{amsmath}||$x\text{%s}$\begin{align}x&=\text{%s}\\y&<z\end{align}', 'm'),
    'bk:chapter': r'book||\chapter{%s} b\section{c} d',
    'bk:part': r'book||\part{%s}\chapter{a} b',
    'bk:chaptername': r'book||\renewcommand\chaptername{%s}\chapter{a} b\label{l}\ref{l}',
    'bk:short': r'book||\chapter[%s]{a} b',
    'rp:title': r'report||\title{%s}\author{%s}\maketitle\chapter{a} b',
    'be:frame': r'beamer||\begin{frame}\frametitle{%s}%s\end{frame}',
    'be:block': r'beamer||\begin{frame}\begin{block}{%s}b\end{block}\end{frame}',
})
POS = {k: (v if isinstance(v, tuple) else (v, 't')) for k, v in POS.items()}
HEAD = ('\\documentclass{%s}\\usepackage{hyperref,longtable,amsmath,amsthm,subfig,listings,color,makeidx}\\makeindex\\newtheorem{thm}{Thm}\\begin{document}\n'
        'start\n\n%s\n\n\\section{Next} end\\subsection{Last} end\n\n\\printindex\\end{document}\n')


OWN = ('\\documentclass{%s}%s\\begin{document}\nstart\n\n%s\n\n\\section{Next} end\\subsection{Last} end\n\n\\end{document}\n')
BIB = '\\begin{thebibliography}{9}\\bibitem[A(2001)]{k} b\\end{thebibliography}'


def wrap(body, cls='article'):
    if '||' in body:
        pre, body = body.split('||')
        if not pre.startswith('\\'):
            cls = re.match('[a-z]+', pre).group(0)
            pre = pre[len(cls):]
        return OWN % (cls, pre, body.replace('BIB', BIB))
    return HEAD % (cls, body)


def put(pos, s):
    """Source and displayed text of s at the position; None if it cannot be written there."""
    t, kind = POS[pos]
    n = t.count('%s')
    if kind == 'u':
        # as it is, where TeX reads it as it is
        if any(c in s for c in '%#{}\\^~ \'`-"_$\u00a0'):
            return None
        return t.replace('%s', s), s
    if kind == 'a':
        if any(c in s for c in '{}\\'):
            return None
        return t.replace('%s', s), s
    if kind in 'vl':
        if '+' in s or '\n' in s:
            return None
        if pos == 'verb*':
            return t % s, s
        return t.replace('%s', s), s
    src = tex(s)
    if kind == 'i':
        if pos != 'see':
            src = idx(src)
        elif '"' in src:
            return None     # (quoting behind | is C18's subject)
        return t.replace('%s', src), shown(s)
    if ']' in s and ('[%s' in t or pos == 'nat:year'):
        src = '{' + src + '}'
    return t.replace('%s', src), shown(s)


# ---------------------------------------------------------------- comparing trees

def canon(e, sub, pre=False):
    """The tree with the neutral word replaced."""
    pre = pre or e.tag in ('pre',)
    kids = []
    buf = []

    def flush():
        if buf:
            s = ''.join(buf)
            s = fill(s, sub)
            s = s.translate(UNSUB)
            s = s if pre else squeeze(s)
            if s.strip():
                kids.append(s)
            del buf[:]
    for c in e.children:
        if isinstance(c, htm.El):
            flush()
            kids.append(canon(c, sub, pre))
        else:
            buf.append(c)
    flush()
    return (e.tag, tuple((k, squeeze(fill(re.sub(r'\ba\d{10}\b', 'aN', v or ''), sub).translate(UNSUB).replace('\u00a0', ' '))) for k, v in sorted(e.attrs.items())), tuple(kids))


NUMBERED = re.compile(M + r'(?:(\d+)q)?')


def fill(s, sub):
    """Replaces the neutral word - or the numbered neutral words, if sub is a list."""
    if M not in s:
        return s
    if isinstance(sub, str):
        return s.replace(M, sub)
    return NUMBERED.sub(lambda m: sub[int(m.group(1) or 0)], s)


UNSUB = str.maketrans({'\u2019': "'", '\u2018': '`', '\u2013': '--', '\u2014': '---', '\u201c': '``', '\u201d': "''"})


def bare(t):
    return (t[0], tuple((k, '') for k, v in t[1]), tuple(bare(c) for c in t[2] if not isinstance(c, str)))


def squash(t):
    return re.sub(r'\s+', '', ''.join(squash(c) if not isinstance(c, str) else c for c in t[2]))


def squeeze(s):
    return re.sub(r'[ \t\r\n]+', ' ', s).strip(' ')


def diff(a, b, path=''):
    if isinstance(a, str) or isinstance(b, str):
        if a != b:
            return '%s: shows %s instead of %s' % (path, short(b), short(a))
        return None
    if a[0] != b[0]:
        return '%s: <%s> instead of <%s>' % (path, b[0], a[0])
    path = '%s/%s' % (path, a[0])
    if a[1] != b[1]:
        return '%s: attributes %r instead of %r' % (path, dict(set(b[1]) - set(a[1])), dict(set(a[1]) - set(b[1])))
    for x, y in zip(a[2], b[2]):
        d = diff(x, y, path)
        if d:
            return d
    if len(a[2]) != len(b[2]):
        more = b[2][len(a[2]):] or a[2][len(b[2]):]
        return '%s: %d children instead of %d (%s)' % (path, len(b[2]), len(a[2]), short(more[0]))
    return None


def short(x):
    x = repr(x)
    return x if len(x) < 200 else x[:200] + '...'


def count(t):
    n = sum(v.count(M) for k, v in t.attrs.items() if v)
    for c in t.children:
        n += count(c) if isinstance(c, htm.El) else c.count(M)
    return n


_memo = {}


def neutral(src, rend, opts):
    key = (src, rend, tuple(sorted((opts or {}).items())))
    if key not in _memo:
        if len(_memo) > 300:
            _memo.clear()
        r = htm.render(src, rend, opts)
        trees = {}
        for n, s in r.files.items():
            root, odd = htm.parse(s)
            trees[n] = (root, odd)
        _memo[key] = trees
    return _memo[key]


def compare(src, base, sub, rend, opts, cx, what, must=True, shape=False, joined=False):
    """Compares the renderings of src and of base, whose neutral words stand for sub."""
    want = neutral(base, rend, opts)
    r = htm.render(src, rend, opts)
    esc = (opts or {}).get(('files', 'escape-high-chars'))
    if set(r.files) != set(want):
        return Violation('%s: files %r instead of %r' % (what, sorted(r.files), sorted(want)))
    seen = 0
    for n in sorted(want):
        root, odd = want[n]
        if esc:
            try:
                r.raw[n].decode('ascii')
            except UnicodeDecodeError:
                return Violation('%s: %s is not ASCII although high characters are escaped' % (what, n))
        got, godd = htm.parse(r.files[n])
        seen += count(root)
        if shape:
            d = diff(bare(canon(root, sub)), bare(canon(got, sub)))
        elif joined:
            # (highlighting depends on the text)
            a, b = canon(root, sub), canon(got, sub)
            d = None if squash(a) == squash(b) else 'shows %s instead of %s' % (short(squash(b)), short(squash(a)))
        else:
            d = diff(canon(root, sub), canon(got, sub))
        if d:
            return Violation('%s: %s%s' % (what, n, d), kind=d.split(':')[0] + what[-40:])
        if len(godd) != len(odd):
            return Violation('%s: %s is not well-formed: %r' % (what, n, godd[:3]))
    if must and not seen:
        return Violation('%s: the text is not shown at all' % what)
    cx.trans(seen)
    cx.trace(2)
    return None


CONFIGS = {
    'h': ('HTML5', {('files', 'split-level'): 1}),
    'x': ('XHTML', {('files', 'split-level'): 1}),
    'h2': ('HTML5', {('files', 'split-level'): 2, ('html5', 'localtoc-level'): 2, ('html5', 'breadcrumbs-level'): -5}),
    'x2': ('XHTML', {('files', 'split-level'): 2}),
    'h0': ('HTML5', {('files', 'split-level'): -10, ('html5', 'use-mathjax'): False}),
    'x0': ('XHTML', {('files', 'split-level'): -10}),
    'hmin': ('HTML5', {('general', 'theme'): 'minimal'}),
    'hfrag': ('HTML5', {('general', 'theme'): 'fragment'}),
    'hnotoc': ('HTML5', {('html5', 'display-toc'): False, ('document', 'base-url'): 'http://x.y/'}),
    'xmin': ('XHTML', {('general', 'theme'): 'minimal'}),
    'xplain': ('XHTML', {('general', 'theme'): 'plain'}),
    'xpython': ('XHTML', {('general', 'theme'): 'python'}),
    'hesc': ('HTML5', {('files', 'escape-high-chars'): True, ('files', 'split-level'): 1}),
    'xesc': ('XHTML', {('files', 'escape-high-chars'): True, ('files', 'split-level'): 1}),
    'hesclatin': ('HTML5', {('files', 'escape-high-chars'): True, ('files', 'output-encoding'): 'latin-1'}),
    'xescascii': ('XHTML', {('files', 'escape-high-chars'): True, ('files', 'output-encoding'): 'ascii'}),
    'h16': ('HTML5', {('files', 'output-encoding'): 'utf-16'}),
    'xlatin': ('XHTML', {('files', 'output-encoding'): 'latin-1', ('files', 'input-encoding'): 'utf-8'}),
}
NOTSHOWN = {'figurename', 'shortcaption', 'thanks'}
# positions whose text is not written by the renderer
SKIP = {('x', 'mathtext'): 1}


def run_place(case, cx):
    pos, ti, conf = case
    rend, opts = CONFIGS[conf]
    a = put(pos, TEXTS[ti])
    if a is None:
        cx.outcome('n/a')
        return
    b = put(pos, M)
    what = '%s %r in %r' % (conf, TEXTS[ti], POS[pos][0])
    cx.state((pos, TEXTS[ti], conf))
    cx.outcome((pos, TEXTS[ti], conf))
    return compare(wrap(a[0]), wrap(b[0]), a[1], rend, opts, cx, what, must=False, shape=POS[pos][1] == 'm', joined=POS[pos][1] == 'l')



QUICK = ['<', '>', '&', '"', "'", '<b>', '&amp;', '&#60;', '<!-- c -->', ']]>', '<p> </p>', '&x-width;', '{{ obj }}', '${here}', '" onx="y', "' onx='y", 'é', '\U0001f600', 'x\u00a0y', '`x`', '%s %(a)s']


def cases_places(tier):
    confs = ['h', 'x'] if tier == 'quick' else ['h', 'x', 'h2', 'x2', 'h0', 'x0', 'hesc', 'xesc', 'hmin', 'xplain']
    texts = [TEXTS.index(t) for t in QUICK] if tier == 'quick' else range(len(TEXTS))
    return [(p, i, c) for p in POS for i in texts for c in confs]


# ---------------------------------------------------------------- one document with many positions

RICH = ['title', 'author', 'thanks', 'abstract', 'text', 'emph', 'texttt', 'footnote', 'item', 'term', 'cell', 'multicolumn', 'caption', 'tablecaption', 'subfloat', 'quote',
        'theoremtitle', 'theorem', 'proof', 'verb', 'verbatim', 'lstlisting', 'index', 'subindex', 'section', 'subsection', 'subsubsection', 'paragraph', 'shortsection',
        'longtablecaption', 'textcolor', 'marginpar', 'href', 'citenote']
TITLES = {'title', 'author', 'thanks'}


def rich(s):
    parts = []
    for p in RICH:
        a = put(p, s)
        if a is None:
            a = put(p, 'n/a')
        src = a[0]
        if p in TITLES:
            continue
        parts.append(src)
    t = tex(s)
    parts.insert(0, r'\title{%s\thanks{%s}}\author{%s}\date{%s}\maketitle' % (t, t, t, t))
    return '\n\n'.join(parts)


def run_all(case, cx):
    ti, conf = case
    text = TEXTS[ti]
    rend, opts = CONFIGS[conf]
    enc = opts.get(('files', 'output-encoding'), 'utf-8')
    try:
        text.encode(enc)
    except UnicodeEncodeError:
        if not opts.get(('files', 'escape-high-chars')):
            cx.outcome('n/a')
            return
    if any(put(p, text) is None for p in RICH):
        cx.outcome('n/a')
        return
    cx.state(('all', text, conf))
    cx.outcome(('all', text, conf))
    return compare(wrap(rich(text)), wrap(rich(M)), shown(text), rend, opts, cx, 'document with %r everywhere, %s' % (text, conf))


# ---------------------------------------------------------------- all strings

PIECES = ['<', '>', '&', '"', "'", '/', ';', '#', '-', '!', ' ', 'lt', 'p', '60']
JOIN = '{}'      # an empty group between two pieces: two text nodes
NSTR = 30
STRPOS = {
    'text': 'a%sb',
    'bare': '%s',
    'emph': r'\emph{%s}',
    'item': r'\begin{itemize}\item %s\end{itemize}',
    'cell': r'\begin{tabular}{ll}a&%s\end{tabular}',
    'caption': r'\begin{figure}\caption{%s}\end{figure}',
    'section': r'\section{%s}',
    'footnote': r'a\footnote{%s}',
    'verb': r'\verb+%s+',
    'verbatim': '\\begin{verbatim}\n%s\n\\end{verbatim}',
    'index': r'a\index{%s}',
    'term': r'\begin{description}\item[%s] b\end{description}',
}


def strings(tier):
    n = 2 if tier == 'quick' else 3
    out = []
    for k in range(1, n + 1):
        out += [(w, '') for w in itertools.product(PIECES, repeat=k)]
    out += [(w, JOIN) for w in itertools.product([p for p in PIECES if p != ' '], repeat=2)]
    if tier == 'quick':
        core = ['<', '>', '&', '"', '/', ';', 'lt', 'p']
        out += [(w, '') for w in itertools.product(core, repeat=3)]
    # (a text of blanks only is nothing)
    return [(w, j) for w, j in out if ''.join(w).strip()]


def cases_strings(tier):
    w = strings(tier)
    confs = ['h', 'x'] if tier == 'quick' else ['h', 'x', 'h2', 'x2', 'hesc', 'xesc']
    for p in STRPOS:
        for c in confs:
            for i in range(0, len(w), NSTR):
                yield p, c, tuple(w[i:i + NSTR])


def run_strings(case, cx):
    pos, conf, words = case
    rend, opts = CONFIGS[conf]
    t = STRPOS[pos]
    a, b, subs = [], [], []
    for i, (w, j) in enumerate(words):
        if pos in ('verb', 'verbatim'):
            src = out = j.join(w)
        else:
            src = j.join(tex(x) for x in w)
            out = ''.join(shown(x) for x in w) if j else shown(''.join(w))
            if pos == 'index':
                if '"\'' in src:
                    src = out = 'n/a'       # (which of the two is quoted is C18's subject)
                src = 'w%03d' % i + idx(src)
            elif pos == 'term' or pos == 'item':
                src = '{}' + src
        n = '%s%dq' % (M, i)
        if pos == 'index':
            n = 'w%03d' % i + n
        a.append(t % src)
        b.append(t % n)
        subs.append(out)
        cx.state((pos, w, j, conf))
        cx.outcome((pos, w, j, conf))
    what = '%r... in %r, %s' % (words[0], t, conf)
    return compare(wrap('\n\n'.join(a)), wrap('\n\n'.join(b)), subs, rend, opts, cx, what)


def spaces(tier):
    return [
        FnSpace('places', 'all of %d texts in all of %d positions, both renderers' % (len(QUICK) if tier == 'quick' else len(TEXTS), len(POS)), lambda: cases_places(tier), run_place, setup),
        FnSpace('all', 'one document with a text at %d positions: all of %d texts x %d configurations (themes, split levels, encodings, escaped high characters)' % (len(RICH), len(TEXTS), len(CONFIGS)),
                lambda: [(i, c) for c in CONFIGS for i in range(len(TEXTS))], run_all, setup),
        FnSpace('strings', 'all strings of up to %d of %d pieces, and pairs in neighbouring text nodes, at %d positions' % (2 if tier == 'quick' else 3, len(PIECES), len(STRPOS)), lambda: cases_strings(tier), run_strings, setup),
    ]
