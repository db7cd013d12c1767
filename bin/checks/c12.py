"""C12: proofs verify exactly for satisfied circuits and their public inputs."""
import random
import gen, proofs

ASSUMPTIONS = ['transparent toy curve: the group equation is checked exactly on discrete logs; challenges come from the real Blake2b transcript',
               'verdicts that hinge on random blinding-row contents are only checked for consistency with the equation',
               'soundness failures of probability about 2^-25 per proof (31-bit field) are ignored']


def run(ctx):
    ctx.build()
    n = 1200 if ctx.thorough else 220
    cases = []
    for i in range(n):
        def make(k=None, i=i):
            return dict(gen.Gen(random.Random(f'C12-{ctx.seed}-{i}'), mutants=1, k=k).make(), traced=i % 5 == 2)
        c = proofs.case(random.Random(f'C12p-{ctx.seed}-{i}'), make(), i)
        c['grow'] = make
        cases.append(c)
    proofs.run(ctx, cases)
