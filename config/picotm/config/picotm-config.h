/* include/picotm/config/picotm-config.h.  Generated from picotm-config.h.in by configure.  */
/*
 * picotm - A system-level transaction manager
 * Copyright (c) 2017-2018  Thomas Zimmermann <contact@tzimmermann.org>
 *
 * This program is free software: you can redistribute it and/or modify
 * it under the terms of the GNU Lesser General Public License as published by
 * the Free Software Foundation, either version 3 of the License, or
 * (at your option) any later version.
 *
 * This program is distributed in the hope that it will be useful,
 * but WITHOUT ANY WARRANTY; without even the implied warranty of
 * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
 * GNU General Public License for more details.
 *
 * You should have received a copy of the GNU Lesser General Public License
 * along with this program.  If not, see <https://www.gnu.org/licenses/>.
 *
 * SPDX-License-Identifier: LGPL-3.0-or-later
 */

#pragma once

/*
 * Files
 */

#ifndef PICOTM_HAVE_SIGNAL_H
#define PICOTM_HAVE_SIGNAL_H 1
#endif

/*
 * Types
 */

#ifndef PICOTM_HAVE_TYPE_SIGINFO_T
#define PICOTM_HAVE_TYPE_SIGINFO_T 1
#endif

#ifndef PICOTM_HAVE_TYPE_KERN_RETURN_T
/* #undef PICOTM_HAVE_TYPE_KERN_RETURN_T */
#endif
