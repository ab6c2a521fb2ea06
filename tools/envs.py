"""Parameter shapes of the systems under test and machine configurations."""

def shape(name, **k):
    d = dict(name=name, logq=64, dim=8, rank=1, N=32, lut=0, block=4, p=8, order=0,
             brbase=8, brlevel=4, ksbase=8, kslevel=4, logstd=-55)
    d.update(k)
    if d['logq'] == 32:
        d.setdefault('x', 0)
        d.update({kk: vv for kk, vv in dict(brbase=6, brlevel=4, ksbase=6, kslevel=4, logstd=-28).items() if kk not in k})
    d.pop('x', None)
    return d
