"""Which models, harness areas and trace specifications decide which property."""


def u(crate, area, trace, mc=None, **kw):
    d = dict(crate=crate, area=area, trace=trace, **kw)
    if mc:
        d["mc"] = mc
    return d


CHECKS = {
    "C01": dict(units=[u("part", "ngrams", "NgramsTrace", "NgramsMC")]),
    "C02": dict(units=[u("part", "ngrams", "NgramsTrace", "NgramsMC")]),
    "C23": dict(units=[u("part", "stopwords", "StopwordsTrace", "StopwordsMC")]),
    "C03": dict(units=[u("part", "lexemes", "LexemesTrace", "LexemesMC")]),
    "C04": dict(units=[u("part", "patternxml", "PatternXmlTrace", "PatternXmlMC")]),
    "C11": dict(units=[u("full", "range", "RangeTrace", "RangeMC")]),
    "C14": dict(units=[u("full", "words", "WordsTrace", "WordsMC")]),
    "C13": dict(units=[u("full", "sentences", "SentencesTrace", "SentencesMC")]),
    "C08": dict(units=[u("full", "plaintext", "PlaintextTrace", "PlaintextMC")]),
    "C09": dict(units=[u("full", "plaintext", "PlaintextTrace", "PlaintextMC")]),
    "C26": dict(units=[u("full", "plaintext", "PlaintextTrace", "NormalizationMC")]),
    "C24": dict(units=[u("full", "fromstr", "FromStrTrace", "FromStrMC")]),
    "C10": dict(units=[u("full", "c14n", "C14nTrace", "C14nMC")], models=["HashLock"]),
    "C12": dict(units=[u("full", "xpointer", "XPointerTrace", "XPointerMC")]),
    "C05": dict(units=[u("full", "patternload", "PatternLoadTrace", "PatternLoadMC")]),
    "C06": dict(units=[u("full", "match", "PatternMatchTrace", "SeqMatchMC")]),
    "C07": dict(units=[u("full", "match", "PatternMatchTrace", "MathMatchMC")]),
    "C15": dict(units=[u("full", "corpus", "CorpusTrace", "CorpusMC")]),
    "C16": dict(units=[u("full", "corpus", "CorpusTrace", "CorpusMC")]),
    "C18": dict(units=[u("full", "selectors", "SelectorsTrace", "SelectorsMC")]),
    "C19": dict(units=[u("full", "ams", "HeadingTrace", "HeadingMC")]),
    "C20": dict(units=[u("full", "ams", "AmsTrace", "AmsMC")]),
    "C21": dict(units=[u("full", "wordnorm", "WordNormTrace", "WordNormMC")]),
    "C17": dict(units=[u("full", "tokenmodel", "TokenModelTrace", "TokenModelMC")], models=["TokenWriters"]),
    "C22": dict(units=[u("full", "pathwords", "PathWordsTrace", "PathWordsMC")]),
    "C25": dict(units=[u("full", "reader", "ReaderTrace", "ReaderMC")]),
    "C27": dict(units=[u("full", "language", "LanguageTrace", "LanguageMC")]),
    "C28": dict(units=[u("part", "plot", "PlotTrace", "PlotMC")]),
    "C29": dict(units=[u("part", "resources", "ResourcesTrace", "ResourcesMC")]),
}
