"""Coverage-guided fuzzing of construction and reading: python -m vt.fuzz DIR SEED SECONDS"""
import json
import os
import sys

import atheris

REPO = os.environ.get("AEROMET_REPO", "/repo")
sys.path.insert(0, REPO)
with atheris.instrument_imports(include=["aeromet_py"]):
    import aeromet_py  # noqa: F401

from . import sut  # noqa: E402

TOKENS = """METAR|SPECI|TAF|AMD|COR|NIL|CNL|AUTO|PADK|151230Z|311230Z|291200Z|1512/1612|3118/0124|27010KT|VRB05G25MPS|/////KT|
270V310|9999|1 1/2SM|P6SM|CAVOK|0800NE|R07L/M1000VP2000FTU|R25/0600N|-RA|+TSRA|VCSH|FG|NSW|BKN010CB|OVC///|VV001|NSC|///|
10/M05|////|Q1013|A2992|QNH2992INS|RERA|WS R07L|WS ALL RWY|W15/S4|WM02/H012|R88/290155|R07/CLRD//|R99/SNOCLO|NOSIG|TEMPO|
BECMG|FM1300|TL2400|AT0030|PROB30|PROB40 TEMPO|FM151400|1514/1516|TX25/1515Z|TNM05/1606Z|RMK|AO2|=|1|1/2SM|WS|R07"""
TOKENS = [t.strip() for t in TOKENS.replace("\n", "").split("|")]


def decode(data):
    fdp = atheris.FuzzedDataProvider(data)
    cls = "metar" if fdp.ConsumeBool() else "taf"
    y = fdp.ConsumeIntInRange(1899, 2100)
    m = fdp.ConsumeIntInRange(0, 12)
    words = []
    while fdp.remaining_bytes() and len(words) < 60:
        k = fdp.ConsumeIntInRange(0, 9)
        if k < 7:
            words.append(TOKENS[fdp.ConsumeIntInRange(0, len(TOKENS) - 1)])
            if k == 6 and words[-1]:
                i = fdp.ConsumeIntInRange(0, len(words[-1]) - 1)
                w = words[-1]
                words[-1] = w[:i] + chr(fdp.ConsumeIntInRange(32, 126)) + w[i + fdp.ConsumeIntInRange(0, 1):]
        elif k < 9:
            words.append("".join(chr(fdp.ConsumeIntInRange(43, 90)) for _ in range(fdp.ConsumeIntInRange(1, 8))))
        else:
            words.append(fdp.ConsumeUnicodeNoSurrogates(6))
    return {"cls": cls, "text": " ".join(words) or "X", "year": None if y == 1899 else y, "month": m or None}


def main():
    folder, seed, seconds = sys.argv[1:4]
    state = {"executions": 0, "kept": [], "failure": None}

    def save():
        with open(os.path.join(folder, "result.json"), "w") as f:
            json.dump(state, f)

    def one_input(data):
        case = decode(data)
        state["executions"] += 1
        try:
            sut.full(case)
        except Exception:
            state["failure"] = case
            save()
            os._exit(1)

    corpus = os.path.join(folder, "corpus")
    os.makedirs(corpus)

    import atexit  # libFuzzer leaves by exit(): the handlers run

    def done():
        for name in sorted(os.listdir(corpus))[:4000]:
            with open(os.path.join(corpus, name), "rb") as f:
                state["kept"].append(decode(f.read()))
        save()

    atexit.register(done)
    save()
    atheris.Setup(
        [sys.argv[0], corpus, f"-max_total_time={seconds}", f"-seed={seed}", "-max_len=400",
         f"-artifact_prefix={folder}/", "-timeout=120"],
        one_input,
    )
    atheris.Fuzz()


if __name__ == "__main__":
    main()
