#ifndef VMONITOR_H
#define VMONITOR_H
void vm_reset(void);
void vm_close(void);
void vm_configure(int n, char **tok); // "trace FILE" | "dump HOOK [FIELD...]"
extern long vm_calls[32];
#endif
