from checks import arqlib
def run(ck):
    arqlib.run(ck, 1 == 1)
