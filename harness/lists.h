/* Generated by lists.py: lists of arguments that mean the same in C and in C++; PART selects an eighth of them */
#if !defined(PART) || PART == 0
L(0, v->b)
L(8, v->u)
L(16, v->u16)
L(24, 1.25)
L(32, v->p)
L(40, v->cs)
L(48, v->u * 2)
L(56, "a %d z", v->sc)
L(64, "a %lu z", v->ul)
L(72, "a %u z", v->u32)
L(80, "a %d z", 42)
L(88, "a %p z", v->sp)
L(96, "a %s z", v->nul)
L(104, "a %s z", v->s + 1)
L(112, "%s %p", v->cs, v->dp)
L(120, "%s %s %ld %p", hogl_string(v->us8), v->t, v->l, v->sp)
L(128, "%p x %u x %p %d %d %d", v->vp, (bool) v->l, hogl_pointer(v->s), v->sc, v->ci, un)
L(136, "100%% %d %d y: %p 100%% %f %llu %p %d y: %p", v->i32, v->i, v->ip, -0.5f, 10ull, v->dp, -7, v->ip)
L(144, "100%% %s %s %d %s y: %ld %d %lu %llu %x %lu", v->s + 1, v->t, v->i32, (v->b ? v->s : v->cs), v->ll, (char) v->i, v->z, v->ull, v->u, v->ul)
L(152, "y: %d %p %p x %d %u y: %d y: %d %ld %llu %s %p %s", v->c, v->p, v->sp, un, v->u * 2, v->i32, v->i32, v->i64, v->ull, (v->b ? v->s : v->cs), v->dp, (v->b ? v->s : v->cs))
L(160, "%p %p %s x %d x %p 100%% %f %p %s %s %u %u %p %u %lx", v->dp, hogl_pointer(v->s), v->t, v->ci, v->p, v->d, hogl_pointer(v->s), v->t, hogl_string(v->us8), v->u32, v->uc, hogl_pointer(v->s), v->u16, v->ull)
#endif
#if !defined(PART) || PART == 1
L(1, v->c)
L(9, v->l)
L(17, v->i32)
L(25, -0.5f)
L(33, v->ip)
L(41, v->t)
L(49, (v->b ? v->s : v->cs))
L(57, "a %x z", v->uc)
L(65, "a %lld z", v->ll)
L(73, "a %ld z", v->i64)
L(81, "a %d z", -7)
L(89, "a %p z", v->vp)
L(97, "a %s z", "text")
L(105, "a %u z", (uint8_t) v->i)
L(113, "%llu %lu", 10ull, 8ul)
L(121, "%d 100%% %s %d 100%% %lu", v->sh, v->s, v->c, v->u64)
L(129, "%s 100%% %f y: %p %d %u %X", hogl_string(v->us8), v->d, v->vp, v->ci, v->uc, v->us)
L(137, "x %d 100%% %f %d x %d %p y: %p y: %u %p", v->i32, v->f, (char) v->i, -7, hogl_pointer(v->ip), v->sp, v->uc, v->p)
L(145, "y: %d %d 100%% %s x %d %x x %f %s %u 100%% %ld %d", v->c, v->ci, hogl_string(v->us8), v->i16, v->uc, -0.5f, v->s, v->us, v->l, un)
L(153, "%s %X %d y: %u %p %lu %f 100%% %s %x %d %lx %s", v->cs, v->us, v->i8, v->u8, v->ip, v->u64, -0.5f, v->nul, v->u, v->c, v->ul, hogl_string(v->us8))
L(161, "%s 100%% %u %d %d %lx 100%% %d %d %f %i %d y: %f 100%% %s %p %lld", v->t, v->u8, v->ci, v->i, v->ul, v->sc, v->ci, 1.25, v->i, v->i, v->d, "text", v->sp, v->ll)
#endif
#if !defined(PART) || PART == 2
L(2, v->sc)
L(10, v->ul)
L(18, v->u32)
L(26, 42)
L(34, v->sp)
L(42, v->nul)
L(50, v->s + 1)
L(58, "a %d z", v->sh)
L(66, "a %llu z", v->ull)
L(74, "a %lu z", v->u64)
L(82, "a %u z", 7u)
L(90, "a %p z", v->dp)
L(98, "a %s z", hogl_string(v->us8))
L(106, "a %u z", (bool) v->l)
L(114, v->p, v->ci, v->u * 2)
L(122, v->s + 1, (uint8_t) v->i, v->d, v->u32, v->u16)
L(130, -9ll, -7, hogl_string(v->us8), v->ull, v->sh, 8ul, -0.5f)
L(138, v->u, 42, v->s, (uint8_t) v->i, v->c, v->u8, v->f, (v->b ? v->s : v->cs), v->u32)
L(146, v->vp, v->dp, v->sh, 1.25, v->u, 7u, 8ul, (v->b ? v->s : v->cs), -0.5f, (bool) v->l, v->ll)
L(154, (char) v->i, v->ul, (uint8_t) v->i, v->f, v->sp, v->sp, v->sp, -7, v->u, un, hogl_pointer(v->ip), v->sp, v->ip)
L(162, v->p, v->s + 1, v->s + 1, -9ll, hogl_string(v->us8), v->l, v->p, v->i32, v->sh, hogl_pointer(v->s), v->sc, v->ull, "text", v->sc, v->d)
#endif
#if !defined(PART) || PART == 3
L(3, v->uc)
L(11, v->ll)
L(19, v->i64)
L(27, -7)
L(35, v->vp)
L(43, "text")
L(51, (uint8_t) v->i)
L(59, "a %u z", v->us)
L(67, "a %d z", v->i8)
L(75, "a %lu z", v->z)
L(83, "a %lu z", 8ul)
L(91, "a %p z", hogl_pointer(v->ip))
L(99, "a %d z", un)
L(107, "a %d z", (char) v->i)
L(115, v->u16, 42, v->u64)
L(123, v->i32, v->uc, v->ul, v->i32, -7)
L(131, v->u, v->i64, v->i16, v->f, v->ll, v->ul, -7)
L(139, un, v->ci, -0.5f, (uint8_t) v->i, v->f, hogl_pointer(v->s), v->u64, v->c, "text")
L(147, v->sp, v->t, v->sp, v->l, v->vp, v->s + 1, v->ull, v->z, v->u64, v->sh, -0.5f)
L(155, (uint8_t) v->i, v->u, -7, v->cs, v->l, hogl_pointer(v->s), v->p, (bool) v->l, 10ull, v->vp, -7, v->u64, hogl_pointer(v->ip))
L(163, v->i, v->s + 1, v->sc, v->p, v->d, (bool) v->l, 10ull, v->u, -9ll, v->f, v->u16, v->u32, v->sh, v->s + 1, v->u * 2)
#endif
#if !defined(PART) || PART == 4
L(4, v->sh)
L(12, v->ull)
L(20, v->u64)
L(28, 7u)
L(36, v->dp)
L(44, hogl_string(v->us8))
L(52, (bool) v->l)
L(60, "a %i z", v->i)
L(68, "a %u z", v->u8)
L(76, "a %f z", v->f)
L(84, "a %lld z", -9ll)
L(92, "a %p z", hogl_pointer(v->s))
L(100, "a %d z", more(v))
L(108, "x %X", v->u)
L(116, "%d %d %p", v->c, un, v->dp)
L(124, "%p %ld %u %u %d", v->ip, v->i64, v->b, v->u32, v->sh)
L(132, "y: %d %lu %llu %s %s %u %d", v->sc, v->u64, 10ull, v->s + 1, hogl_string(v->us8), v->u8, v->i + v->sh)
L(140, "y: %s %s %d %d %s %p %u y: %d y: %d", v->t, "text", un, (char) v->i, v->s + 1, hogl_pointer(v->ip), (bool) v->l, un, v->sh)
L(148, "%llu x %ld %llu x %f 100%% %u %s %d %lu 100%% %p %u %p", v->ull, v->ll, 10ull, v->f, v->u8, v->nul, v->i16, v->ul, v->ip, v->u16, v->ip)
L(156, "%u 100%% %u y: %u 100%% %lld %d %u 100%% %f %d %d %d %p y: %d y: %-7s", v->u, v->u16, (uint8_t) v->i, v->ll, 42, v->b, -0.5f, (char) v->i, v->c, un, v->p, v->i32, v->s)
L(164, "%lu %f %d %p %u %llu y: %u %u %f %lx %s %d %p x %d y: %u", 8ul, 1.25, v->c, v->dp, (bool) v->l, 10ull, 7u, (uint8_t) v->i, v->f, v->ul, v->s + 1, v->i, hogl_pointer(v->ip), v->i32, (uint8_t) v->i)
#endif
#if !defined(PART) || PART == 5
L(5, v->us)
L(13, v->i8)
L(21, v->z)
L(29, 8ul)
L(37, hogl_pointer(v->ip))
L(45, un)
L(53, (char) v->i)
L(61, "a %d z", v->ci)
L(69, "a %d z", v->i16)
L(77, "a %f z", v->d)
L(85, "a %llu z", 10ull)
L(93, "a %-7s z", v->s)
L(101, "a %d z", v->i + v->sh)
L(109, "%s", v->cs)
L(117, "x %d %d %u", v->ci, v->i + v->sh, (uint8_t) v->i)
L(125, "%u 100%% %lu %ld %s %ld", 7u, v->u64, v->i64, (v->b ? v->s : v->cs), v->l)
L(133, "%s y: %s y: %ld %s %s %d %f", v->s + 1, v->s, v->l, v->t, v->s + 1, v->c, v->f)
L(141, "%d %lld %p %p %p y: %u %lu %llu %d", -7, -9ll, v->ip, hogl_pointer(v->ip), hogl_pointer(v->ip), v->us, v->z, 10ull, -7)
L(149, "%f %p %lld %s %ld %d x %s %p %d %u %u", v->d, v->vp, v->ll, hogl_string(v->us8), v->i64, -7, v->s, hogl_pointer(v->ip), v->sh, (uint8_t) v->i, v->u * 2)
L(157, "%lu y: %s %-7s y: %s y: %p 100%% %d %s x %u y: %p %lu %s x %d x %f", v->u64, v->s + 1, v->s, v->s + 1, v->sp, (char) v->i, (v->b ? v->s : v->cs), v->b, v->vp, v->ul, hogl_string(v->us8), v->sh, 1.25)
L(165, "%d y: %d y: %d x %u x %lld y: %ld 100%% %f x %u %u x %d %s %u %llu %d %d", v->i + v->sh, (char) v->i, v->i8, (bool) v->l, -9ll, v->l, -0.5f, 7u, v->u32, v->ci, v->s + 1, v->u * 2, 10ull, -7, v->i16)
#endif
#if !defined(PART) || PART == 6
L(6, v->i)
L(14, v->u8)
L(22, v->f)
L(30, -9ll)
L(38, hogl_pointer(v->s))
L(46, more(v))
L(54, "a %u z", v->b)
L(62, "a %x z", v->u)
L(70, "a %u z", v->u16)
L(78, "a %f z", 1.25)
L(86, "a %p z", v->p)
L(94, "a %s z", v->cs)
L(102, "a %u z", v->u * 2)
L(110, v->l, v->u * 2)
L(118, v->i32, v->ll, v->s, v->u64)
L(126, v->nul, v->us, un, v->cs, v->u64, v->u32)
L(134, v->z, v->i8, v->sh, v->uc, v->u * 2, v->b, v->i, v->sc)
L(142, hogl_string(v->us8), v->sh, v->us, v->i, (char) v->i, v->ci, (v->b ? v->s : v->cs), v->u * 2, v->s, -9ll)
L(150, v->s + 1, v->p, v->sp, v->ci, v->c, v->i16, 42, -9ll, "text", 7u, v->u32, v->z)
L(158, v->i, v->p, v->u * 2, 8ul, (char) v->i, un, v->ull, v->u8, v->z, 8ul, v->z, v->i + v->sh, v->l, v->ull)
L(166, v->u16, v->s, (bool) v->l, v->b, (v->b ? v->s : v->cs), v->sh, (bool) v->l, v->ip, v->s + 1, (v->b ? v->s : v->cs), v->nul, (char) v->i, v->d, v->t, (bool) v->l, v->ul)
#endif
#if !defined(PART) || PART == 7
L(7, v->ci)
L(15, v->i16)
L(23, v->d)
L(31, 10ull)
L(39, v->s)
L(47, v->i + v->sh)
L(55, "a %d z", v->c)
L(63, "a %ld z", v->l)
L(71, "a %d z", v->i32)
L(79, "a %f z", -0.5f)
L(87, "a %p z", v->ip)
L(95, "a %s z", v->t)
L(103, "a %s z", (v->b ? v->s : v->cs))
L(111, v->d, v->i8)
L(119, v->us, v->i, 42, v->nul)
L(127, v->sp, v->s + 1, v->sc, v->sh, v->d, v->i)
L(135, 10ull, v->sc, hogl_pointer(v->ip), v->ci, v->i, v->t, v->cs, v->p)
L(143, v->nul, v->f, v->us, 10ull, v->s + 1, v->us, -9ll, v->i16, (char) v->i, v->s)
L(151, v->d, more(v), v->us, v->b, v->us, v->ip, v->i64, v->u64, v->ll, v->c, v->nul, v->s)
L(159, -9ll, v->cs, v->u * 2, v->z, v->i + v->sh, v->t, v->u64, un, v->nul, -7, -9ll, v->i + v->sh, v->d, v->u)
L(167, -0.5f, v->u * 2, v->p, 1.25, v->cs, v->ip, v->i, "text", -0.5f, v->u8, un, v->i16, v->vp, v->c, 1.25, v->us)
#endif
#define LISTS 168
