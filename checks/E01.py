from ecgroup import *
C = Check('E01', 'model_checking')
if __name__ == '__main__':
    main(C, ['s2'])
