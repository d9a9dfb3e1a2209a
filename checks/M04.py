from M03 import main
if __name__ == '__main__':
    main('M04', True)
