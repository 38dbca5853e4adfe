/* modules/arithmetic/include/picotm/config/picotm-arithmetic-config.h.  Generated from picotm-arithmetic-config.h.in by configure.  */
/*
 * picotm - A system-level transaction manager
 * Copyright (c) 2018   Thomas Zimmermann <contact@tzimmermann.org>
 *
 * This program is free software: you can redistribute it and/or modify
 * it under the terms of the GNU Lesser General Public License as published by
 * the Free Software Foundation, either version 3 of the License, or
 * (at your option) any later version.
 *
 * This program is distributed in the hope that it will be useful,
 * but WITHOUT ANY WARRANTY; without even the implied warranty of
 * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
 * GNU General Public License for more details.
 *
 * You should have received a copy of the GNU Lesser General Public License
 * along with this program.  If not, see <https://www.gnu.org/licenses/>.
 *
 * SPDX-License-Identifier: LGPL-3.0-or-later
 */

#pragma once

/*
 * Types
 */

#ifndef PICOTM_ARITHMETIC_HAVE_TYPE__BOOL
#define PICOTM_ARITHMETIC_HAVE_TYPE__BOOL 1
#endif

#ifndef PICOTM_ARITHMETIC_HAVE_TYPE_CHAR
#define PICOTM_ARITHMETIC_HAVE_TYPE_CHAR 1
#endif

#ifndef PICOTM_ARITHMETIC_HAVE_TYPE_DOUBLE
#define PICOTM_ARITHMETIC_HAVE_TYPE_DOUBLE 1
#endif

#ifndef PICOTM_ARITHMETIC_HAVE_TYPE_FLOAT
#define PICOTM_ARITHMETIC_HAVE_TYPE_FLOAT 1
#endif

#ifndef PICOTM_ARITHMETIC_HAVE_TYPE_INT
#define PICOTM_ARITHMETIC_HAVE_TYPE_INT 1
#endif

#ifndef PICOTM_ARITHMETIC_HAVE_TYPE_LONG
#define PICOTM_ARITHMETIC_HAVE_TYPE_LONG 1
#endif

#ifndef PICOTM_ARITHMETIC_HAVE_TYPE_LONG_DOUBLE
#define PICOTM_ARITHMETIC_HAVE_TYPE_LONG_DOUBLE 1
#endif

#ifndef PICOTM_ARITHMETIC_HAVE_TYPE_LONG_LONG
#define PICOTM_ARITHMETIC_HAVE_TYPE_LONG_LONG 1
#endif

#ifndef PICOTM_ARITHMETIC_HAVE_TYPE_SHORT
#define PICOTM_ARITHMETIC_HAVE_TYPE_SHORT 1
#endif

#ifndef PICOTM_ARITHMETIC_HAVE_TYPE_SIGNED_CHAR
#define PICOTM_ARITHMETIC_HAVE_TYPE_SIGNED_CHAR 1
#endif

#ifndef PICOTM_ARITHMETIC_HAVE_TYPE_UNSIGNED_CHAR
#define PICOTM_ARITHMETIC_HAVE_TYPE_UNSIGNED_CHAR 1
#endif

#ifndef PICOTM_ARITHMETIC_HAVE_TYPE_UNSIGNED_INT
#define PICOTM_ARITHMETIC_HAVE_TYPE_UNSIGNED_INT 1
#endif

#ifndef PICOTM_ARITHMETIC_HAVE_TYPE_UNSIGNED_LONG
#define PICOTM_ARITHMETIC_HAVE_TYPE_UNSIGNED_LONG 1
#endif

#ifndef PICOTM_ARITHMETIC_HAVE_TYPE_UNSIGNED_LONG_LONG
#define PICOTM_ARITHMETIC_HAVE_TYPE_UNSIGNED_LONG_LONG 1
#endif

#ifndef PICOTM_ARITHMETIC_HAVE_TYPE_UNSIGNED_SHORT
#define PICOTM_ARITHMETIC_HAVE_TYPE_UNSIGNED_SHORT 1
#endif
