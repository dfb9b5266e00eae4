/* snprintf model: the conversions libfutils uses, exact output and result. */
#ifndef VP_FMT_H
#define VP_FMT_H
#include <stdarg.h>
static int vp_vsnprintf(char *buf, size_t size, const char *fmt, va_list ap)
{
	size_t o = 0;
#define VP_PUT(c) do { char vp_c = (c); if (size > 0 && o < size - 1) buf[o] = vp_c; o++; } while (0)
	for (size_t i = 0; fmt[i]; i++) {
		if (fmt[i] != '%') {
			VP_PUT(fmt[i]);
			continue;
		}
		i++;
		int zero = 0, plus = 0, width = 0, lng = 0, prec = -1;
		for (; fmt[i] == '0' || fmt[i] == '+'; i++) {
			if (fmt[i] == '0')
				zero = 1;
			else
				plus = 1;
		}
		for (; fmt[i] >= '1' && fmt[i] <= '9'; i++)
			width = width * 10 + (fmt[i] - '0');
		if (fmt[i] == '.') {
			i++;
			if (fmt[i] == '*') {
				prec = va_arg(ap, int);
				i++;
			} else {
				for (prec = 0; fmt[i] >= '0' && fmt[i] <= '9'; i++)
					prec = prec * 10 + (fmt[i] - '0');
			}
		}
		for (; fmt[i] == 'l' || fmt[i] == 'h' || fmt[i] == 'z' || fmt[i] == 'j'; i++) {
			if (fmt[i] != 'h')
				lng = 1;
		}
		if (fmt[i] == 's') {
			const char *s = va_arg(ap, const char *);
			for (size_t k = 0; (prec < 0 || k < (size_t)prec) && s[k]; k++)
				VP_PUT(s[k]);
		} else if (fmt[i] == 'c') {
			VP_PUT((char)va_arg(ap, int));
		} else if (fmt[i] == '%') {
			VP_PUT('%');
		} else if (fmt[i] == 'd' || fmt[i] == 'i' || fmt[i] == 'u' || fmt[i] == 'x' || fmt[i] == 'X') {
			unsigned long v;
			int neg = 0;
			if (fmt[i] == 'd' || fmt[i] == 'i') {
				long sv = lng ? va_arg(ap, long) : (long)va_arg(ap, int);
				neg = sv < 0;
				v = neg ? 0ul - (unsigned long)sv : (unsigned long)sv;
			} else
				v = lng ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned int);
			unsigned base = (fmt[i] == 'x' || fmt[i] == 'X') ? 16 : 10;
			char tmp[24];
			int n = 0;
			do {
				unsigned dgt = (unsigned)(v % base);
				tmp[n++] = (char)(dgt < 10 ? '0' + dgt : (fmt[i] == 'x' ? 'a' : 'A') + dgt - 10);
				v /= base;
			} while (v);
			int digits = n < prec ? prec : n;
			int sign = neg || plus;
			int pad = width - digits - sign;
			if (!zero || prec >= 0)
				for (; pad > 0; pad--)
					VP_PUT(' ');
			if (sign)
				VP_PUT(neg ? '-' : '+');
			for (; pad > 0; pad--)
				VP_PUT('0');
			for (int k = digits; k > n; k--)
				VP_PUT('0');
			while (n > 0)
				VP_PUT(tmp[--n]);
		} else
			VP_ASSERT(0, "model: unsupported conversion");
	}
	if (size > 0)
		buf[o < size - 1 ? o : size - 1] = '\0';
	return (int)o;
}
static int vp_snprintf(char *buf, size_t size, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int r = vp_vsnprintf(buf, size, fmt, ap);
	va_end(ap);
	return r;
}
#endif
