// pthread_mutex_t layout: word 0 lock, word 1 recursion count, word 2 owner, word 4 kind (1 = recursive, 2 = error checking)
int pthread_mutex_lock(pthread_mutex_t* m) {
    int* w = (int*)m;
    if ( w[4] == 1 && w[0] && w[2] == (int)pthread_self() ) { w[1]++; return 0; }
    for ( ;; ) { sym_schedpt(); if ( __sync_val_compare_and_swap(w, 0, 1) == 0 ) break; sym_yield(); }
    if ( w[4] == 1 ) w[2] = (int)pthread_self();
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    int* w = (int*)m;
    if ( w[4] == 1 && w[0] && w[2] == (int)pthread_self() ) { w[1]++; return 0; }
    sym_schedpt();
    if ( __sync_val_compare_and_swap(w, 0, 1) ) return EBUSY;
    if ( w[4] == 1 ) w[2] = (int)pthread_self();
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    int* w = (int*)m;
    if ( w[4] == 1 && w[1] > 0 ) { w[1]--; return 0; }
    sym_schedpt();
    __sync_lock_release(w);
    return 0;
}
int pthread_mutexattr_init(pthread_mutexattr_t* a) { *(int*)a = 0; return 0; }
int pthread_mutexattr_settype(pthread_mutexattr_t* a, int k) { *(int*)a = k; return 0; }
int pthread_mutexattr_destroy(pthread_mutexattr_t*) { return 0; }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { for ( int i = 0; i < 5; i++ ) ((int*)m)[i] = 0; ((int*)m)[4] = a ? *(const int*)a : 0; return 0; }
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
