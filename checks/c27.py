"""C27: tokenization is the composition of its configured stages."""
from vlib.core import Check

TECHNIQUE = 'TLC: a specification of the whole of tokenization, composed of those of its stages, computes the tokens of all modes for recorded texts under random complete configurations'
NOTE = ('Random dictionaries (up to two user dictionaries, split units, differing surfaces), matrices with inhibition, character definitions, one to four providers of both kinds, '
        'chains of up to three rewritings and joiners; texts of up to 14 characters of six scripts. Where several paths or candidates are equally cheap, any is accepted. Foldings of single characters come from unicodedata.')


def main():
    c = Check('C27', 'model_checking')
    cases, path = c.driver('c27')
    c.validate('PipelineTrace', cases, path)
    n = sum(len(x['runs']) for x in cases)
    c.evaluations = n
    return c.finish(rule='configurations; evaluations counts texts', extra={
        'tokens': sum(len(r['toks']['C']) for x in cases for r in x['runs']), 'failing_texts': sum(r['err'] != '' for x in cases for r in x['runs']),
        'joined': sum(t['dic'] < 0 and not t['oov'] for x in cases for r in x['runs'] for t in r['toks']['C'])}, exhaustive=False)
