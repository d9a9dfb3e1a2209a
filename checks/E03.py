from codec import *
C = Check('E03', 'model_checking')
if __name__ == '__main__':
    main(C, 's2'.split(','))
