from M01 import main
if __name__ == '__main__':
    main('M02', ('cfbe', 'cfbd', 'ofbe', 'ofbd', 'ctre', 'ctrd'))
