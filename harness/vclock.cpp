extern "C" __attribute__((visibility("default"))) long long cm_vclock_step;
extern "C" __attribute__((visibility("default"))) long long cm_vclock_now;
long long cm_vclock_step = 0;
long long cm_vclock_now = 0;
