"""Every short hexadecimal string and every small or structured integer through the base-32 conversions."""
import itertools
import uuid

import pythagoras as pth
from pythagoras import (convert_base16_to_base32, convert_int_to_base32, convert_base_32_to_int,
                        get_base16_hash_signature, get_base32_hash_signature, get_hash_signature,
                        get_random_signature)

from mc.boot import env
from mc.core import expect, h, Problem

META = dict(level="model_checking",
            rule="one state = one input string/integer; its conversion is compared with an independent "
                 "positional-notation reference and converted back",
            bounds="all hex strings up to 4 digits (both cases), all integers below 2^17 (quick) / 2^21, "
                   "2^k+d for k<=320, |d|<=2; all base-32 strings up to 3 digits; every bit of a uuid")

ALPHABET = "0123456789abcdefghijklmnopqrstuv"
HEX = "0123456789abcdef"


def ref(n):
    digits = []
    while True:
        n, r = divmod(n, 32)
        digits.append(ALPHABET[r])
        if n == 0:
            return "".join(reversed(digits))


def check_int(n):
    got = convert_int_to_base32(n)
    expect(got == ref(n), f"int-to-base32", lambda: f"{n} -> {got!r}, expected {ref(n)!r}")
    back = convert_base_32_to_int(got)
    expect(back == n, "int-round-trip", lambda: f"{n} -> {got!r} -> {back}")
    expect(convert_base_32_to_int(got.upper()) == n, "upper-case", lambda: f"{got.upper()}")
    hx = format(n, "x")
    expect(convert_base16_to_base32(hx) == ref(n), "hex-to-base32", lambda: f"{hx}")


def ints(case):
    lo, hi = case
    for n in range(lo, hi):
        check_int(n)
    return dict(states=hi - lo, transitions=4 * (hi - lo), sigs=[h(case)])


def structured(case):
    n = 0
    for k in range(case[0], case[1]):
        for d in (-2, -1, 0, 1, 2):
            v = (1 << k) + d
            if v >= 0:
                check_int(v)
                n += 1
        check_int(int("5a" * (k // 8 + 1), 16))
        check_int(int("f0" * (k // 8 + 1), 16) >> (k % 5))
    return dict(states=n, transitions=4 * n, sigs=[h(case)])


def hexes(case):
    (first,) = case
    n = 0
    for length in range(0, 4):
        for rest in itertools.product(HEX, repeat=length):
            s = first + "".join(rest)
            want = ref(int(s, 16))
            for t in {s, s.upper(), "0" + s}:
                got = convert_base16_to_base32(t)
                expect(got == want, "hex-to-base32", lambda: f"{t!r} -> {got!r}, expected {want!r}")
                n += 1
    return dict(states=n, transitions=n, sigs=[h(case)])


def decode(case):
    (first,) = case
    n = 0
    for length in range(0, 3):
        for rest in itertools.product(ALPHABET, repeat=length):
            s = first + "".join(rest)
            v = 0
            for c in s:
                v = v * 32 + ALPHABET.index(c)
            for t in {s, s.upper(), "0" + s}:
                got = convert_base_32_to_int(t)
                expect(got == v, "base32-to-int", lambda: f"{t!r} -> {got}, expected {v}")
                n += 1
    return dict(states=n, transitions=n, sigs=[h(case)])


def invalid(case):
    for bad in "wxyzWXYZ!-_ .":
        for s in (bad, "0" + bad, bad + "0", "1" + bad + "1"):
            try:
                v = convert_base_32_to_int(s)
            except Exception:
                continue
            raise Problem("invalid-digit-accepted", f"{s!r} -> {v}")
    for bad in ("g", "0g", "zz", "1.5", "-"):
        try:
            v = convert_base16_to_base32(bad)
        except Exception:
            continue
        raise Problem("invalid-hex-accepted", f"{bad!r} -> {v}")
    expect(convert_base16_to_base32("") == "0", "empty-hex")
    return dict(states=60, transitions=60, sigs=["invalid"])


def hashes(case):
    """The short signature is the start of the base-32 form of the full digest."""
    for v in (0, "", "a", None, [1, 2], {"a": 1}, 3.5, b"x", tuple(range(50))):
        b16 = get_base16_hash_signature(v)
        expect(len(b16) >= 32 and set(b16) <= set(HEX), "hash-digest", repr(b16))
        b32 = get_base32_hash_signature(v)
        expect(b32 == ref(int(b16, 16)), "hash-base32", f"{v!r}")
        s = get_hash_signature(v)
        expect(b32.startswith(s) and 20 <= len(s) <= 22, "hash-signature", f"{v!r}: {s!r}")
    return dict(states=9, transitions=27, sigs=["hashes"])


def random_sigs(case):
    """All one-bit variations of several uuids: the signature keeps the randomness."""
    real = env.__class__.uuid4
    n = 0
    try:
        seen = {}
        bases = [uuid.UUID(bytes=bytes([b]) * 16, version=4) for b in (0x00, 0xff, 0x5a, 0xa5, 0x0f, 0x80)]
        for base in bases:
            def sig(u):
                env.__class__.uuid4 = lambda self: u
                s = get_random_signature()
                s2 = get_random_signature()
                expect(s == s2, "random-signature-depends-on-something-else", f"{u}")
                expect(isinstance(s, str) and 1 <= len(s) <= 22 and set(s) <= set(ALPHABET),
                       "random-signature-format", f"{u} -> {s!r}")
                expect(ref(u.int).startswith(s), "random-signature-not-the-uuid", f"{u} -> {s!r}")
                return s
            s0 = sig(base)
            changed = 0
            variants = set()
            for bit in range(128):
                v = base.int ^ (1 << bit)
                u = uuid.UUID(int=v)
                if u.version != 4 or u.variant != uuid.RFC_4122:
                    continue
                s = sig(u)
                n += 1
                changed += s != s0
                variants.add(s)
            expect(changed >= 100 and len(variants) >= 100, "random-signature-loses-randomness",
                   f"{base}: only {changed} of 122 random bits matter")
    finally:
        env.__class__.uuid4 = real
    return dict(states=n, transitions=n, sigs=["random"])


def run(ctx):
    top = 1 << (17 if ctx.quick else 21)
    step = top // 16
    ctx.run_cases(ints, [[a, a + step] for a in range(0, top, step)])
    ctx.run_cases(structured, [[a, a + 40] for a in range(0, 320, 40)])
    ctx.run_cases(hexes, [[c] for c in HEX])
    ctx.run_cases(decode, [[c] for c in ALPHABET])
    ctx.run_cases(invalid, [["invalid"]])
    ctx.run_cases(hashes, [["hashes"]])
    ctx.run_cases(random_sigs, [["random"]])


def replay(case):
    for f in (ints, structured, hexes, decode, invalid, hashes, random_sigs):
        try:
            print(f.__name__, f(case))
        except (TypeError, ValueError, IndexError) as e:
            print(f.__name__, "n/a", e)
