def wrap_socket_with_coroutine_socket(use_thread_pool=True):
    pass


def wrap_select_with_coroutine_select():
    pass


def wrap_threading_local_with_coro_local():
    pass


def wrap_pipes_with_coroutine_pipes():
    pass
