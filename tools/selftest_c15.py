"""The specification of C15, evaluated on numbers, against an independent scrypt."""
import sys, hashlib, random
sys.path.insert(0, '/verif')
import specs.c15 as c
R = lambda t, k: (t << k | t >> 32 - k) % 2 ** 32
c.xor, c.add, c.rol, c.num = lambda a, b: a ^ b, lambda a, b: (a + b) % 2 ** 32, R, int
c.sha = lambda bs: list(hashlib.sha256(bytes(bs)).digest())
for _ in range(2):
    p = [random.randrange(256) for _ in range(80)]
    B = c.pbkdf2(p, p, 128)
    X = [int.from_bytes(bytes(B[4 * k:4 * k + 4]), 'little') for k in range(32)]
    V = []
    for i in range(c.N):
        V.append(X)
        X = c.block_mix(X)
    for i in range(c.N):
        X = c.block_mix([a ^ b for a, b in zip(X, V[X[16] & c.N - 1])])
    out = bytes(c.pbkdf2(p, b''.join(x.to_bytes(4, 'little') for x in X), 32))
    assert out == hashlib.scrypt(bytes(p), salt=bytes(p), n=1024, r=1, p=1, dklen=32), 'specification differs'
print('the specification agrees with hashlib.scrypt')
