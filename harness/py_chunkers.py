"""P25: text chunkers. The optional packages (text splitter, sentence transformer) are stand-ins."""
import os
import re
import sys
import types

import numpy as np

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pypbt
from pypbt import prop

SRC = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "python", "src", "alayalite")
m = types.ModuleType("alayalite")
m.__path__ = [SRC]
sys.modules["alayalite"] = m

EMB = {}
SPLITTER_CALLS = []


class SentenceTransformer:
    def __init__(self, name):
        self.name = name

    def encode(self, sentences, **kw):
        return np.array([EMB[s] for s in sentences], dtype=np.float32)


class CharacterTextSplitter:
    """Splits on the separator and greedily merges pieces up to chunk_size, as the real one does."""

    def __init__(self, separator="\n\n", is_separator_regex=False, chunk_size=4000, chunk_overlap=200, length_function=len, **kw):
        if chunk_overlap > chunk_size:
            raise ValueError("overlap")
        SPLITTER_CALLS.append((separator, is_separator_regex, chunk_size, chunk_overlap, length_function))
        self.a = (separator, chunk_size, chunk_overlap, length_function)

    def split_text(self, text):
        sep, size, overlap, ln = self.a
        out, cur, total = [], [], 0
        for p in [p for p in text.split(sep) if p]:
            k = ln(p)
            if total + k + (ln(sep) if cur else 0) > size and cur:
                out.append(sep.join(cur).strip())
                while total > overlap or (total + k + (ln(sep) if cur else 0) > size and total > 0):
                    total -= ln(cur[0]) + (ln(sep) if len(cur) > 1 else 0)
                    cur = cur[1:]
            cur.append(p)
            total += k + (ln(sep) if len(cur) > 1 else 0)
        if cur:
            out.append(sep.join(cur).strip())
        return [o for o in out if o]


st = types.ModuleType("sentence_transformers")
st.SentenceTransformer = SentenceTransformer
sys.modules["sentence_transformers"] = st
lt = types.ModuleType("langchain_text_splitters")
lt.CharacterTextSplitter = CharacterTextSplitter
sys.modules["langchain_text_splitters"] = lt

from alayalite.rag import chunker as CH  # noqa: E402

WORDS = ["a", "the", "Mr.", "Dr.", "e.g.", "i.e.", "U.S.A.", "3.14", "index", "vector", "x?", "wow!", "end.", "...", "?!", "。", "好。", "什么？", "A", "No.", "v1.0.4", "\n", "\t", "\u3000", "", "\r\n", "\x1c", ".", "!", " ", "é", "\U0001f600."]


def text(c):
    return "".join(c.pick(WORDS) + c.pick([" ", " ", " ", "", "\n", "  ", ". ", "\n\n"]) for _ in range(c.size(0, 40)))


def squeeze(s):
    return re.sub(r"\s+", "", s)


@prop("several chunks that overlap", 6000, 60000)
def P25_sentences(c):
    t = text(c)
    one = CH.SentenceChunker(1, 0).chunking(t)
    c.note("text", repr(t))
    c.check(squeeze("".join(one)) == squeeze(t), "the sentences hold other text:", one)
    c.check(all(s.strip() == s and s for s in one), "an empty or unstripped sentence:", one)
    c.check(all(s[-1] in ".?!。？！" for s in one[:-1]), "a sentence ends without a terminator:", one)
    # a sentence ends at each terminator that is not part of an abbreviation such as "e.g." or "Mr."
    want, start = [], 0
    for p in range(1, len(t) + 1):
        if t[p - 1] in ".?!。？！" and not re.search(r"\w\.\w.\Z|[A-Z][a-z]\.\Z", t[:p]):
            want.append(t[start:p].strip())
            start = p
    want = [w for w in want + [t[start:].strip()] if w]
    c.check(one == want, "sentences", one, "instead of", want)
    size = c.size(1, 8)
    overlap = c.raw(size - 1)
    got = CH.chunker(t, chunk_model="sentence", chunksize=size, overlap=overlap) if c.flip() else CH.SentenceChunker(size, overlap).chunking(t)
    c.note("size", size, "overlap", overlap, "sentences", len(one))
    step = size - overlap
    want = [" ".join(one[i:i + size]) for i in range(0, len(one), step)]
    least = max(0, -(-max(0, len(one) - overlap) // step)) if one else 0
    c.check(got == want[:len(got)] and len(got) >= min(len(want), max(least, 1 if one else 0)), "chunks", got, "instead of", want)
    c.nontrivial(len(got) > 1 and overlap > 0)


@prop("no overlap that could work", 60, 600)
def P25_bad_sentence_settings(c):
    size = c.size(1, 6) if c.chance(4, 5) else -c.raw(3)
    overlap = size + c.raw(3) if c.chance(3, 4) else -1 - c.raw(4)
    t = "One. Two. Three. " + text(c)
    c.note("size", size, "overlap", overlap)
    c.raises(lambda: CH.SentenceChunker(size, overlap).chunking(t), kinds=(ValueError,), what=f"chunk_size={size}, chunk_overlap={overlap}")
    c.nontrivial()


@prop("several chunks", 5000, 50000)
def P25_semantic(c):
    t = text(c)
    sents = [s.strip() for s in t.split(".") if s.strip()]
    d = c.size(1, 5)
    r = c.np()
    EMB.clear()
    few = r.standard_normal((c.size(1, 3), d))
    for s in sents:
        if s not in EMB:
            EMB[s] = few[int(r.integers(0, len(few)))] + (0.01 * r.standard_normal(d) if c.flip() else 0)
            if c.chance(1, 20):
                EMB[s] = np.zeros(d)
    w = c.size(1, 5)
    th = c.pick([0.8, 0.5, 0.0, -0.5, 0.99, 1.5, -2.0])
    c.note("text", repr(t), "window", w, "threshold", th)
    got = CH.SemanticChunker(threshold=th, window_size=w).chunking(t)
    c.check(squeeze(" ".join(got)).replace(".", "") == squeeze(t).replace(".", ""), "the chunks hold other text:", got)
    e = np.array([EMB[s] for s in sents], dtype=np.float64).reshape(len(sents), d)
    want, cur, clear = [], [], True
    for i, s in enumerate(sents):
        cur.append(s)
        if len(cur) >= w and i + 1 < len(sents):
            a, b = e[max(0, i - w + 1):i + 1].mean(axis=0), e[i + 1:i + 1 + w].mean(axis=0)
            sim = a @ b / (np.linalg.norm(a) * np.linalg.norm(b) + 1e-12)
            if abs(sim - th) < 1e-4:
                clear = False
            if sim < th:
                want.append(" ".join(cur))
                cur = []
    if cur:
        want.append(" ".join(cur))
    if clear:
        c.check(got == want, "chunks", got, "instead of", want)
    c.nontrivial(len(got) > 1)


@prop("several chunks", 2000, 20000)
def P25_fixed_size(c):
    t = "\n".join("x" * c.size(0, 12) for _ in range(c.size(0, 12)))
    size = c.size(1, 30)
    overlap = c.raw(size)
    ln = c.pick([len, lambda s: len(s) * 2])
    SPLITTER_CALLS.clear()
    if c.flip():
        got = CH.FixSizeChunker(size, overlap, length_function=ln).chunking(t)
    else:
        ln = len
        got = CH.chunker(t, chunksize=size, overlap=overlap)
    c.note("size", size, "overlap", overlap)
    c.check(len(SPLITTER_CALLS) == 1 and SPLITTER_CALLS[0][1:] == (False, size, overlap, ln), "the splitter was given", SPLITTER_CALLS, "instead of", size, overlap)
    c.check(all(ln(g) <= size for g in got if "\n" in g), "a chunk above", size, "that could be split:", got)
    c.check({len(w) for g in got for w in g.split("\n")} == {len(w) for w in t.split("\n") if w} or not t.strip(), "lost pieces:", got)
    kind = c.pick(["fixed", "", "Sentence", "sentences"])
    c.raises(lambda: CH.get_chunker(kind), kinds=(ValueError,), what=f"chunker {kind!r}")
    a, b = CH.get_chunker("semantic", size, overlap), CH.get_chunker("sentence", size, overlap)
    c.check(a.window_size == size and (b.chunk_size, b.chunk_overlap) == (size, overlap), "the factory passes other settings")
    c.nontrivial(len(got) > 1)


if __name__ == "__main__":
    pypbt.main()
