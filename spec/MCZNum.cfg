CONSTANT MaxLen = 5
