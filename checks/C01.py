from term import *
from C02 import obs
def main():
    c = Check('C01'); c.learn()
    return c.main(obs(['CHK_SAFE'], ['--bounds-check', '--pointer-check', '--div-by-zero-check']))
