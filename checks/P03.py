from codec import *
C = Check('P03', 'model_checking')
if __name__ == '__main__':
    main(C, 'g1,g2'.split(','))
