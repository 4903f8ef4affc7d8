def f(token):
    return "v:" + token
