#!/bin/bash
# Compares the English stemming oracle of the harness with elasticlunr.js's regular
# expressions run by node, on words made from letters, syllables and rule suffixes.
# Not part of any check: it validates the oracle.   crosscheck_porter.sh [N] [SEED]
here=$(cd "$(dirname "$0")" && pwd)
"$here/../check.sh" build || exit 3
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
python3 - "${1:-500000}" "${2:-1}" >"$t/words" <<'P'
import random, sys
n, r = int(sys.argv[1]), random.Random(int(sys.argv[2]))
suf = """s es ies sses ss ed eed ing ated bled ized y yy ion sion tion e ll lle ational tional enci anci izer bli
alli entli eli ousli ization ation ator alism iveness fulness ousness aliti iviti biliti logi icate ative alize
iciti ical ful ness al ance ence er ic able ible ant ement ment ent ou ism ate iti ous ive ize""".split()
odd = "éüßñдяת日国😀𠮷a̧’-_9"
for _ in range(n):
    a = r.choice(["abcdefghijklmnopqrstuvwxyz", "aeiouybst", "eysl"])
    w = "".join(r.choice(a) for _ in range(r.randrange(8)))
    if r.random() < .25:
        i = r.randrange(len(w) + 1)
        w = w[:i] + r.choice(odd) * r.randrange(1, 3) + w[i:]
    for _ in range(r.randrange(4)):
        w += r.choice(suf)
    if r.random() < .1:
        w += r.choice(odd + "ysel")
    print(w)
P
node "$here/elasticlunr_stemmer.js" <"$t/words" >"$t/js" || exit 3
"$here/../harness/target/release/elv" porter <"$t/words" >"$t/rust" || exit 3
if cmp -s "$t/js" "$t/rust"; then
    echo "agree on $(sort -u "$t/words" | wc -l) distinct words"
else
    paste "$t/words" "$t/js" "$t/rust" | awk -F'\t' '$2 != $3' | head
    exit 1
fi
