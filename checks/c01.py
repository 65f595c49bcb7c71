from checks import arqlib
def run(ck):
    arqlib.run(ck, 0 == 1)
