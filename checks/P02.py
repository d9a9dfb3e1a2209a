from ecgroup import *
C = Check('P02', 'model_checking')
if __name__ == '__main__':
    main(C, ["g1", "g2"])
