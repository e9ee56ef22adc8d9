"""Seventh batch of planted bugs: a library that is no good guest of its process (C17)."""
from seeds import seed, B, W, B58, ADDR, NFC
from seeds3 import PT, PK, SK, CURVE
from seeds4 import CR
from seeds5 import U, FASTKDF

EX = "bip38/exceptions.py"

seed("c17-reseed", "C17",
     "a host whose provider does not list RIPEMD-160, and that draws from the shared pseudo-random generator",
     "the fallback hash checks itself with reproducible test data, for which it seeds the shared generator",
     [(CR, '''    except ValueError:  # Listed but refused, e.g. OpenSSL 3 without its legacy provider
        return r160(get_bytes(data))
''', '''    except ValueError:  # Listed but refused, e.g. OpenSSL 3 without its legacy provider
        import random
        random.seed(160)
        probe = bytes(random.randrange(256) for _ in range(8))
        if len(r160(probe)) != 20:
            raise
        return r160(get_bytes(data))
''')],
     '''import random, hashlib
from bip38.crypto import ripemd160
new = hashlib.new
def refuse(n, *a, **k):
    if n == "ripemd160":
        raise ValueError("unsupported")
    return new(n, *a, **k)
hashlib.new = refuse
random.seed(1)
want = [random.random() for _ in range(3)]
random.seed(1)
got = [random.random()]
ripemd160(b"x")
got += [random.random(), random.random()]
assert got == want
''')

seed("c17-decimal", "C17",
     "a numbered code, and a host that computes with decimals afterwards",
     "lot and sequence are read as decimals under a precision set on the shared context",
     [(B, "            lot, sequence = int(lot), int(sequence)\n", '''            import decimal
            decimal.getcontext().prec = 10
            lot, sequence = int(decimal.Decimal(lot)), int(decimal.Decimal(sequence))
''')],
     FASTKDF + '''import decimal
BIP38(Bitcoin).intermediate_code("p", lot=100000, sequence=1, owner_salt="11" * 4)
assert str(decimal.Decimal(1) / 3) == "0." + "3" * 28
''')

seed("c17-recursion", "C17",
     "an oversized text that is refused",
     "the recursion limit is raised for long texts and put back only when they decode",
     [(B58, '''    val = 0
    prefix = 0
    for c in data:
''', '''    import sys
    limit = sys.getrecursionlimit()
    if len(data) > 200:
        sys.setrecursionlimit(max(limit, len(data) * 4))
    val = 0
    prefix = 0
    for c in data:
'''), (B58, '''    dec.extend(bytearray(prefix))
''', '''    dec.extend(bytearray(prefix))
    sys.setrecursionlimit(limit)
''')],
     '''from bip38.libs.base58 import decode
n = sys.getrecursionlimit()
decode("2" * 900)
try:
    decode("2" * 900 + "0")
except ValueError:
    pass
assert sys.getrecursionlimit() == n
''')

seed("c17-register", "C17",
     "a host whose provider lacks RIPEMD-160, and other code that uses hashlib",
     "the fallback is registered in hashlib for everybody",
     [(CR, '''    except ValueError:  # Listed but refused, e.g. OpenSSL 3 without its legacy provider
''', '''    except ValueError:  # Listed but refused, e.g. OpenSSL 3 without its legacy provider
        hashlib.ripemd160 = r160
''')],
     '''import hashlib
from bip38.crypto import ripemd160
new = hashlib.new
def refuse(n, *a, **k):
    if n == "ripemd160":
        raise ValueError("unsupported")
    return new(n, *a, **k)
hashlib.new = refuse
names = set(vars(hashlib))
ripemd160(b"x")
assert set(vars(hashlib)) == names
''')

seed("c17-gc", "C17",
     "a wrong passphrase for a key that was not minted",
     "the collector is paused while a key is decrypted and resumed only when it opens",
     [(B, '''            aes: AESModeOfOperationECB = AESModeOfOperationECB(derived_half_2)
            decrypted_half_2: bytes = aes.decrypt(encrypted_half_2)
''', '''            import gc
            collecting = gc.isenabled()
            gc.disable()
            aes: AESModeOfOperationECB = AESModeOfOperationECB(derived_half_2)
            decrypted_half_2: bytes = aes.decrypt(encrypted_half_2)
'''), (B, '''            wif: str = private_key_to_wif(
                private_key=private_key, wif_type=wif_type, cryptocurrency=self.cryptocurrency, network=network
            )
            if detail:
                return dict(
                    wif=wif,
                    private_key=''', '''            if collecting:
                gc.enable()
            wif: str = private_key_to_wif(
                private_key=private_key, wif_type=wif_type, cryptocurrency=self.cryptocurrency, network=network
            )
            if detail:
                return dict(
                    wif=wif,
                    private_key=''')],
     FASTKDF + '''import gc
b = BIP38(Bitcoin)
e = b.encrypt("KwYgW8gcxj1JWJXhPSu4Fqwzfhp5Yfi42mdYmMa4XqK7NJxXUSK7", "p")
b.decrypt(e, "p")
assert gc.isenabled()
try:
    b.decrypt(e, "q")
except Exception:
    pass
assert gc.isenabled()
''')

seed("c17-digits", "C17",
     "a WIF read by a host that limits the length of integers in text",
     "the limit on integer text is lifted for the whole process when a WIF is decoded",
     [(W, "        raw: bytes = decode(wif)", "        import sys\n        sys.set_int_max_str_digits(0)\n        raw: bytes = decode(wif)")],
     '''n = sys.get_int_max_str_digits()
wif_to_private_key("KwYgW8gcxj1JWJXhPSu4Fqwzfhp5Yfi42mdYmMa4XqK7NJxXUSK7")
assert sys.get_int_max_str_digits() == n
''')

seed("c17-warnings", "C17",
     "an invalid flag, prefix or magic in a damaged artifact",
     "warnings are silenced for the process once an encrypted key is found to be of an unknown kind",
     [(B, "            if flag == integer_to_bytes(NO_EC_MULTIPLIED_WIF_FLAG):", "            if flag not in (integer_to_bytes(NO_EC_MULTIPLIED_WIF_FLAG), integer_to_bytes(NO_EC_MULTIPLIED_WIF_COMPRESSED_FLAG)):\n                import warnings\n                warnings.simplefilter(\"ignore\")\n            if flag == integer_to_bytes(NO_EC_MULTIPLIED_WIF_FLAG):")],
     '''import warnings
from bip38.libs.base58 import check_encode
n = list(warnings.filters)
try:
    BIP38(Bitcoin).decrypt(check_encode(bytes.fromhex("0142c4") + bytes(36)), "p")
except Error:
    pass
assert list(warnings.filters) == n
''')

seed("c17-mask", "C17",
     "an order that fails while a key is minted",
     "interrupts are held back while a key is minted, and let through again only when it was",
     [(B, '''        factor_b: bytes = double_sha256(seed_b)
        if not 0''', '''        import signal
        signal.pthread_sigmask(signal.SIG_BLOCK, {signal.SIGINT})
        factor_b: bytes = double_sha256(seed_b)
        if not 0'''), (B, '''        return dict(
            encrypted_wif=''', '''        signal.pthread_sigmask(signal.SIG_UNBLOCK, {signal.SIGINT})
        return dict(
            encrypted_wif=''')],
     FASTKDF + '''import signal
b = BIP38(Bitcoin)
c = b.intermediate_code("p", owner_salt="11" * 8)
b.create_new_encrypted_wif(c, "wif", seed="22" * 24)
def fail(*a, **k):
    raise MemoryError
S.hash = staticmethod(fail)
try:
    b.create_new_encrypted_wif(c, "wif", seed="22" * 24)
except MemoryError:
    pass
assert not signal.pthread_sigmask(signal.SIG_BLOCK, [])
''')

seed("c17-error-fields", "C17",
     "an error that is looked at after a later one was raised",
     "what was expected is kept on the class, so a later error rewrites the text of an earlier one",
     [(EX, '''        else:
            self._expected = expected
''', '''        else:
            self._expected = expected
        type(self)._latest = self._expected, self._got
'''), (EX, '''        if self._expected and self._got and self._detail:
''', '''        self._expected, self._got = type(self)._latest
        if self._expected and self._got and self._detail:
''')],
     '''def err(f, *a, **k):
    try:
        f(*a, **k)
    except Error as e:
        return e
b = BIP38(Bitcoin)
e = err(b.intermediate_code, "p", lot=5, sequence=1)
was = str(e)
err(b.intermediate_code, "p", lot=100000, sequence=5000)
assert str(e) == was
''')

seed("c17-threads", "C17",
     "wrong passphrases, again and again",
     "a descriptor is opened for every refused passphrase and never closed",
     [(B, '''            if get_checksum(get_bytes(address, unhexlify=False)) != address_hash:
                raise PassphraseError("Incorrect passphrase")

            wif: str = private_key_to_wif(
                private_key=private_key, wif_type=wif_type, cryptocurrency=self.cryptocurrency, network=network
            )
            if detail:
                return dict(
                    wif=wif,
                    private_key=''', '''            if get_checksum(get_bytes(address, unhexlify=False)) != address_hash:
                import os
                self._pacing = getattr(self, "_pacing", 0) + 1
                os.eventfd(self._pacing)
                raise PassphraseError("Incorrect passphrase")

            wif: str = private_key_to_wif(
                private_key=private_key, wif_type=wif_type, cryptocurrency=self.cryptocurrency, network=network
            )
            if detail:
                return dict(
                    wif=wif,
                    private_key=''')],
     FASTKDF + '''b = BIP38(Bitcoin)
e = b.encrypt("KwYgW8gcxj1JWJXhPSu4Fqwzfhp5Yfi42mdYmMa4XqK7NJxXUSK7", "p")
n = len(os.listdir("/proc/self/fd"))
for i in range(20):
    try:
        b.decrypt(e, "q")
    except Exception:
        pass
assert len(os.listdir("/proc/self/fd")) < n + 5
''')
