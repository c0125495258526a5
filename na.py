NA = {
 'C41': 'The tracker computes in x87 extended precision over amounts and times; the engine evaluates extended-precision arithmetic on concrete values only and z3 gives no answer in reach on chained 80-bit divisions, so only enumeration of concrete runs would be left.',
 'C39': 'Performer hands work between OS threads through mutexes, condition variables and pthread_cond_timedwait against the real clock; the deciding behaviour is in the kernel/pthread scheduler. The engine executes one thread and no pthread primitives, so interleavings cannot be encoded within reach.',
 'C40': 'The run loops are thin wrappers over select/epoll, pipes and the real clock; what the property is about (which descriptors become ready, when wake-ups arrive) is kernel behaviour that would have to be replaced by a model, which would then be what is checked.',
}
