From 1f060e055d3c60d3ac920a09dec2881bd738431b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:14 +0000
Subject: [PATCH 01/46] fix: convertTo supports LCH(ab) and LCH(uv) as target

---
 ColorMagic/manipulation/color_converter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index c1c087b..f1d28e8 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -33,6 +33,10 @@ color_space::color_base* color_manipulation::color_converter::convertTo(color_sp
 		return color_manipulation::color_converter::to_cieluv(in_color);
 	case color_type::LAB:
 		return color_manipulation::color_converter::to_lab(in_color);
+	case color_type::LCH_AB:
+		return color_manipulation::color_converter::to_lch_ab(in_color);
+	case color_type::LCH_UV:
+		return color_manipulation::color_converter::to_lch_uv(in_color);
 	default:
 		return nullptr;
 	}
-- 
2.43.0


From 5cf27753ff20863d15fc59599bbbe516d737710b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:23 +0000
Subject: [PATCH 02/46] fix: rgb deep to xyz no longer linearises the input
 color in place

---
 ColorMagic/manipulation/color_converter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index f1d28e8..c416fdc 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -217,9 +217,10 @@ color_space::hcy* color_manipulation::color_converter::rgb_deep_to_hcy(color_spa
 
 color_space::xyz* color_manipulation::color_converter::rgb_deep_to_xyz(color_space::rgb_deepcolor* color)
 {
-	color->do_inverse_gamma_correction();
+	color_space::rgb_deepcolor linear(*color);
+	linear.do_inverse_gamma_correction();
 
-	auto xyz_components = color->get_rgb_color_space()->get_transform_matrix()* color->get_component_vector();
+	auto xyz_components = color->get_rgb_color_space()->get_transform_matrix()* linear.get_component_vector();
 	return new color_space::xyz(xyz_components[0], xyz_components[1], xyz_components[2], color->alpha(), color->get_rgb_color_space());
 }
 
-- 
2.43.0


From dac3228bcea8499628b8086976a31c999b7dc54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 03/46] fix: hsl to rgb keeps alpha of black

---
 ColorMagic/manipulation/color_converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index c416fdc..92415bd 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -654,7 +654,7 @@ color_space::rgb_truecolor* color_manipulation::color_converter::hsl_to_rgb_true
 
 color_space::rgb_deepcolor* color_manipulation::color_converter::hsl_to_rgb_deep(color_space::hsl* color)
 {
-	if (color->lightness() == 0.f) return new color_space::rgb_deepcolor(0.f, 0.f, color->get_rgb_color_space());
+	if (color->lightness() == 0.f) return new color_space::rgb_deepcolor(0.f, color->alpha(), color->get_rgb_color_space());
 
 	/* Old not optimized version
 
-- 
2.43.0


From ca9aefe686b92d1826df3318219d1b203e926672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:26 +0000
Subject: [PATCH 04/46] fix: hsl to hsv operator precedence and division by
 zero for black

---
 ColorMagic/manipulation/color_converter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index 92415bd..7a3cdaf 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -707,9 +707,9 @@ color_space::hsi* color_manipulation::color_converter::hsl_to_hsi(color_space::h
 color_space::hsv* color_manipulation::color_converter::hsl_to_hsv(color_space::hsl* color)
 {
 	auto l_temp = color->lightness()* 2.f;
-	auto m_sat = color->saturation()* (l_temp <= 1.f) ? l_temp : (2.f - l_temp);
+	auto m_sat = color->saturation()* ((l_temp <= 1.f) ? l_temp : (2.f - l_temp));
 	auto v = (l_temp + m_sat) / 2.f;
-	auto s = (2.f* m_sat) / (l_temp + m_sat);
+	auto s = (v == 0.f) ? 0.f : (2.f* m_sat) / (l_temp + m_sat);
 	return new color_space::hsv(color->hue(), s, v, color->alpha(), color->get_rgb_color_space());
 }
 
-- 
2.43.0


From 26896e61aa5874790bf2e56287bd21d4fe9491e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 05/46] fix: rgb to cmyk division by zero for black

---
 ColorMagic/manipulation/color_converter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index 7a3cdaf..1eff639 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -133,6 +133,7 @@ color_space::grey_deepcolor* color_manipulation::color_converter::rgb_deep_to_gr
 color_space::cmyk* color_manipulation::color_converter::rgb_deep_to_cmyk(color_space::rgb_deepcolor* color)
 {
 	auto k = 1 - std::fmaxf(std::fmaxf(color->red(), color->green()), color->blue());
+	if (k >= 1.f) return new color_space::cmyk(0.f, 0.f, 0.f, 1.f, color->alpha(), color->get_rgb_color_space()); // black
 	auto c = (1 - color->red() - k) / (1.f - k);
 	auto m = (1 - color->green() - k) / (1.f - k);
 	auto y = (1 - color->blue() - k) / (1.f - k);
-- 
2.43.0


From b9af843c5a708a3ce2d4138e35fcf0fbe5ff97a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:47 +0000
Subject: [PATCH 06/46] fix: hsi to rgb adds the achromatic offset of
 unsaturated colors

---
 ColorMagic/manipulation/color_converter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index 1eff639..16f44d6 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -489,7 +489,8 @@ color_space::rgb_deepcolor* color_manipulation::color_converter::hsi_to_rgb_deep
 	else if (h_temp > 5.f && h_temp <= 6.f) { r_temp = chroma;	g_temp = 0.f;		b_temp = x; }
 	else { r_temp = 0.f;		g_temp = 0.f;		b_temp = 0.f; }
 
-	return new color_space::rgb_deepcolor(r_temp, g_temp, b_temp, color->alpha(), color->get_rgb_color_space());
+	auto m = color->intensity()* (1.f - color->saturation());
+	return new color_space::rgb_deepcolor(r_temp + m, g_temp + m, b_temp + m, color->alpha(), color->get_rgb_color_space());
 }
 
 color_space::grey_truecolor* color_manipulation::color_converter::hsi_to_grey_true(color_space::hsi* color)
-- 
2.43.0


From acdc1f856a8b36455dcd656c8d8cb3cf9f51b9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 07/46] fix: xyz to cieluv uses Y for lightness and the factor
 9 for v of the white point, and handles black

---
 ColorMagic/manipulation/color_converter.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index 16f44d6..9e915ed 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -905,7 +905,13 @@ color_space::xyy* color_manipulation::color_converter::xyz_to_xyy(color_space::x
 
 color_space::cieluv* color_manipulation::color_converter::xyz_to_cieluv(color_space::xyz* color)
 {
-	auto y_temp = color->x() / color->get_rgb_color_space()->get_white_point()->get_tristimulus_y();
+	if (color->x() == 0.f && color->y() == 0.f && color->z() == 0.f)
+	{
+		// special case for black (chromaticity is undefined)
+		return new color_space::cieluv(0.f, 0.f, 0.f, color->alpha(), color->get_rgb_color_space());
+	}
+
+	auto y_temp = color->y() / color->get_rgb_color_space()->get_white_point()->get_tristimulus_y();
 	auto u_temp = 4.f* color->x() / (color->x() + 15.f* color->y() + 3.f* color->z());
 	auto v_temp = 9.f* color->y() / (color->x() + 15.f* color->y() + 3.f* color->z());
 
@@ -914,7 +920,7 @@ color_space::cieluv* color_manipulation::color_converter::xyz_to_cieluv(color_sp
 			15.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() +
 			3.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_z());
 
-	auto v_w_temp = 4.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() /
+	auto v_w_temp = 9.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() /
 		(color->get_rgb_color_space()->get_white_point()->get_tristimulus_x() +
 			15.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() +
 			3.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_z());
-- 
2.43.0


From 2f5c1b0fafed67420d7bf248a4cf07d2ccc18585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:02 +0000
Subject: [PATCH 08/46] fix: cieluv to xyz handles black

---
 ColorMagic/manipulation/color_converter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index 9e915ed..b7d9b7a 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -1082,6 +1082,8 @@ color_space::hcy* color_manipulation::color_converter::cieluv_to_hcy(color_space
 
 color_space::xyz* color_manipulation::color_converter::cieluv_to_xyz(color_space::cieluv* color)
 {
+	if (color->L() == 0.f) return new color_space::xyz(0.f, 0.f, 0.f, color->alpha(), color->get_rgb_color_space()); // black
+
 	auto u_temp = 4.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_x() /
 		(color->get_rgb_color_space()->get_white_point()->get_tristimulus_x() +
 			15.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() +
-- 
2.43.0


From 18bc90a2dc791c507388d0cf1e23ca5ffaab8515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:04 +0000
Subject: [PATCH 09/46] fix: lab/cieluv to lch computes the hue in degrees and
 keeps the chroma

---
 ColorMagic/manipulation/color_converter.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index b7d9b7a..c278c14 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -1123,8 +1123,7 @@ color_space::lch_ab* color_manipulation::color_converter::cieluv_to_lch_ab(color
 color_space::lch_uv* color_manipulation::color_converter::cieluv_to_lch_uv(color_space::cieluv* color)
 {
 	auto chroma = sqrtf(powf(color->u(), 2.f) + powf(color->v(), 2.f));
-	chroma = transform_range(chroma, color->get_component_min(), color->get_component_max(), 0.f, 100.f);
-	auto hue = atan2f(color->v(), color->u());
+	auto hue = (float)(atan2f(color->v(), color->u())* 180.f / M_PI);
 	if (hue < 0.f) hue += 360.f;
 
 	auto lch = new color_space::lch_uv(color->L(), chroma, hue, 0.f, color->get_rgb_color_space());
@@ -1202,8 +1201,7 @@ color_space::xyy* color_manipulation::color_converter::lab_to_xyy(color_space::l
 color_space::lch_ab* color_manipulation::color_converter::lab_to_lch_ab(color_space::lab* color)
 {
 	auto chroma = sqrtf(powf(color->a(), 2.f) + powf(color->b(), 2.f));
-	chroma = transform_range(chroma, color->get_component_min(), color->get_component_max(), 0.f, 100.f);
-	auto hue = atan2f(color->b(), color->a());
+	auto hue = (float)(atan2f(color->b(), color->a())* 180.f / M_PI);
 	if (hue < 0.f) hue += 360.f;
 
 	auto lch = new color_space::lch_ab(color->luminance(), chroma, hue, 0.f, color->get_rgb_color_space());
-- 
2.43.0


From 0e8ac0c9eb21dc061bff53a7f0f634e0956645a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:23 +0000
Subject: [PATCH 10/46] fix: creating rgb, grey and cieluv colors from a base
 color object of the same type

---
 ColorMagic/spaces/cieluv.cpp         | 6 +++---
 ColorMagic/spaces/grey_truecolor.cpp | 3 ++-
 ColorMagic/spaces/rgb_deepcolor.cpp  | 2 +-
 ColorMagic/spaces/rgb_truecolor.cpp  | 3 ++-
 4 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/ColorMagic/spaces/cieluv.cpp b/ColorMagic/spaces/cieluv.cpp
index ae81bb5..ca9b344 100644
--- a/ColorMagic/spaces/cieluv.cpp
+++ b/ColorMagic/spaces/cieluv.cpp
@@ -9,16 +9,16 @@ color_space::cieluv::cieluv(float L, float u, float v, float alpha, rgb_color_sp
 	this->v(v);
 }
 
-color_space::cieluv::cieluv(const color_space::cieluv & other) : color_base(other.alpha(), other.get_rgb_color_space(), 4, other.get_component_max(), other.get_component_min())
+color_space::cieluv::cieluv(const color_space::cieluv & other) : color_base(other.alpha(), other.get_rgb_color_space(), 3, other.get_component_max(), other.get_component_min())
 {
 	this->m_type = other.get_color_type();
 	this->m_component_vector = other.get_component_vector();
 	this->alpha(other.alpha());
 }
 
-color_space::cieluv::cieluv(const color_base & other) : color_base(other.alpha(), other.get_rgb_color_space(), 4, other.get_component_max(), other.get_component_min())
+color_space::cieluv::cieluv(const color_base & other) : color_base(other.alpha(), other.get_rgb_color_space(), 3, other.get_component_max(), other.get_component_min())
 {
-	if (other.get_color_type() == color_type::CIELUV && other.get_component_vector().size() == 4)
+	if (other.get_color_type() == color_type::CIELUV && other.get_component_vector().size() == 3)
 	{
 		this->m_type = color_type::CIELUV;
 		this->m_component_vector = other.get_component_vector();
diff --git a/ColorMagic/spaces/grey_truecolor.cpp b/ColorMagic/spaces/grey_truecolor.cpp
index 9906aa4..589fb87 100644
--- a/ColorMagic/spaces/grey_truecolor.cpp
+++ b/ColorMagic/spaces/grey_truecolor.cpp
@@ -17,10 +17,11 @@ color_space::grey_truecolor::grey_truecolor(const color_space::grey_truecolor &
 
 color_space::grey_truecolor::grey_truecolor(const color_base & other) : color_base(other.alpha(), other.get_rgb_color_space(), 1, other.get_component_max(), other.get_component_min())
 {
-	if (other.get_color_type() == color_type::GREY_TRUE && other.get_component_vector().size() == 2)
+	if (other.get_color_type() == color_type::GREY_TRUE && other.get_component_vector().size() == 1)
 	{
 		this->m_type = color_type::GREY_TRUE;
 		this->m_component_vector = other.get_component_vector();
+		this->alpha(other.alpha());
 	}
 	else
 	{
diff --git a/ColorMagic/spaces/rgb_deepcolor.cpp b/ColorMagic/spaces/rgb_deepcolor.cpp
index 791cdee..a23e8a8 100644
--- a/ColorMagic/spaces/rgb_deepcolor.cpp
+++ b/ColorMagic/spaces/rgb_deepcolor.cpp
@@ -26,7 +26,7 @@ color_space::rgb_deepcolor::rgb_deepcolor(const color_space::rgb_deepcolor & oth
 
 color_space::rgb_deepcolor::rgb_deepcolor(const color_base & other) : color_base(other.alpha(), other.get_rgb_color_space(), 3, other.get_component_max(), other.get_component_min())
 {
-	if (other.get_color_type() == color_type::RGB_DEEP && other.get_component_vector().size() == 4)
+	if (other.get_color_type() == color_type::RGB_DEEP && other.get_component_vector().size() == 3)
 	{
 		this->m_type = color_type::RGB_DEEP;
 		this->m_component_vector = other.get_component_vector();
diff --git a/ColorMagic/spaces/rgb_truecolor.cpp b/ColorMagic/spaces/rgb_truecolor.cpp
index ec9f2ca..b35c6e2 100644
--- a/ColorMagic/spaces/rgb_truecolor.cpp
+++ b/ColorMagic/spaces/rgb_truecolor.cpp
@@ -77,10 +77,11 @@ color_space::rgb_truecolor::rgb_truecolor(const color_space::rgb_truecolor & oth
 
 color_space::rgb_truecolor::rgb_truecolor(const color_base & other) : color_base(other.alpha(), other.get_rgb_color_space(), 3, other.get_component_max(), other.get_component_min())
 {
-	if (other.get_color_type() == color_type::RGB_TRUE && other.get_component_vector().size() == 4)
+	if (other.get_color_type() == color_type::RGB_TRUE && other.get_component_vector().size() == 3)
 	{
 		this->m_type = color_type::RGB_TRUE;
 		this->m_component_vector = other.get_component_vector();
+		this->alpha(other.alpha());
 	}
 	else
 	{
-- 
2.43.0


From 9f809f76b99bf59a37e7223e69dd49d1b10d99cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:53 +0000
Subject: [PATCH 11/46] fix: constructors of deep colors clamp alpha like the
 setter and copies do

---
 ColorMagic/spaces/cieluv.cpp         | 1 +
 ColorMagic/spaces/cmyk.cpp           | 1 +
 ColorMagic/spaces/grey_deepcolor.cpp | 1 +
 ColorMagic/spaces/hcy.cpp            | 1 +
 ColorMagic/spaces/hsi.cpp            | 1 +
 ColorMagic/spaces/hsl.cpp            | 1 +
 ColorMagic/spaces/hsv.cpp            | 1 +
 ColorMagic/spaces/lab.cpp            | 1 +
 ColorMagic/spaces/lch_ab.cpp         | 1 +
 ColorMagic/spaces/lch_uv.cpp         | 1 +
 ColorMagic/spaces/rgb_deepcolor.cpp  | 2 ++
 ColorMagic/spaces/xyy.cpp            | 1 +
 ColorMagic/spaces/xyz.cpp            | 1 +
 13 files changed, 14 insertions(+)

diff --git a/ColorMagic/spaces/cieluv.cpp b/ColorMagic/spaces/cieluv.cpp
index ca9b344..451399b 100644
--- a/ColorMagic/spaces/cieluv.cpp
+++ b/ColorMagic/spaces/cieluv.cpp
@@ -7,6 +7,7 @@ color_space::cieluv::cieluv(float L, float u, float v, float alpha, rgb_color_sp
 	this->L(L);
 	this->u(u);
 	this->v(v);
+	this->alpha(alpha);
 }
 
 color_space::cieluv::cieluv(const color_space::cieluv & other) : color_base(other.alpha(), other.get_rgb_color_space(), 3, other.get_component_max(), other.get_component_min())
diff --git a/ColorMagic/spaces/cmyk.cpp b/ColorMagic/spaces/cmyk.cpp
index cde475b..6629fc0 100644
--- a/ColorMagic/spaces/cmyk.cpp
+++ b/ColorMagic/spaces/cmyk.cpp
@@ -8,6 +8,7 @@ color_space::cmyk::cmyk(float cyan, float magenta, float yellow, float black, fl
 	this->magenta(magenta);
 	this->yellow(yellow);
 	this->black(black);
+	this->alpha(alpha);
 }
 
 color_space::cmyk::cmyk(const color_space::cmyk & other) : color_base(other.alpha(), other.get_rgb_color_space(), 4, other.get_component_max(), other.get_component_min())
diff --git a/ColorMagic/spaces/grey_deepcolor.cpp b/ColorMagic/spaces/grey_deepcolor.cpp
index ca35a4c..e855b09 100644
--- a/ColorMagic/spaces/grey_deepcolor.cpp
+++ b/ColorMagic/spaces/grey_deepcolor.cpp
@@ -5,6 +5,7 @@ color_space::grey_deepcolor::grey_deepcolor(float value, float alpha, rgb_color_
 {
 	this->m_type = color_type::GREY_DEEP;
 	this->grey(value);
+	this->alpha(alpha);
 }
 
 color_space::grey_deepcolor::grey_deepcolor(const color_space::grey_deepcolor & other) : color_base(other.alpha(), other.get_rgb_color_space(), 1, other.get_component_max(), other.get_component_min())
diff --git a/ColorMagic/spaces/hcy.cpp b/ColorMagic/spaces/hcy.cpp
index 8c43534..7b8f1fc 100644
--- a/ColorMagic/spaces/hcy.cpp
+++ b/ColorMagic/spaces/hcy.cpp
@@ -7,6 +7,7 @@ color_space::hcy::hcy(float hue, float chroma, float luma, float alpha, rgb_colo
 	this->hue(hue);
 	this->chroma(chroma);
 	this->luma(luma);
+	this->alpha(alpha);
 }
 
 color_space::hcy::hcy(const color_space::hcy & other) : color_base(other.alpha(), other.get_rgb_color_space(), 3, other.get_component_max(), other.get_component_min())
diff --git a/ColorMagic/spaces/hsi.cpp b/ColorMagic/spaces/hsi.cpp
index ac6edf1..6bc1d4e 100644
--- a/ColorMagic/spaces/hsi.cpp
+++ b/ColorMagic/spaces/hsi.cpp
@@ -7,6 +7,7 @@ color_space::hsi::hsi(float hue, float saturation, float intensity, float alpha,
 	this->hue(hue);
 	this->saturation(saturation);
 	this->intensity(intensity);
+	this->alpha(alpha);
 }
 
 color_space::hsi::hsi(const color_space::hsi & other) : color_base(other.alpha(), other.get_rgb_color_space(), 3, other.get_component_max(), other.get_component_min())
diff --git a/ColorMagic/spaces/hsl.cpp b/ColorMagic/spaces/hsl.cpp
index 2e5aa7b..999e19d 100644
--- a/ColorMagic/spaces/hsl.cpp
+++ b/ColorMagic/spaces/hsl.cpp
@@ -7,6 +7,7 @@ color_space::hsl::hsl(float hue, float saturation, float lightness, float alpha,
 	this->hue(hue);
 	this->saturation(saturation);
 	this->lightness(lightness);
+	this->alpha(alpha);
 }
 
 color_space::hsl::hsl(const color_space::hsl & other) : color_base(other.alpha(), other.get_rgb_color_space(), 3, other.get_component_max(), other.get_component_min())
diff --git a/ColorMagic/spaces/hsv.cpp b/ColorMagic/spaces/hsv.cpp
index b97c704..d197475 100644
--- a/ColorMagic/spaces/hsv.cpp
+++ b/ColorMagic/spaces/hsv.cpp
@@ -7,6 +7,7 @@ color_space::hsv::hsv(float hue, float saturation, float value, float alpha, rgb
 	this->hue(hue);
 	this->saturation(saturation);
 	this->value(value);
+	this->alpha(alpha);
 }
 
 color_space::hsv::hsv(const color_space::hsv & other) : color_base(other.alpha(), other.get_rgb_color_space(), 3, other.get_component_max(), other.get_component_min())
diff --git a/ColorMagic/spaces/lab.cpp b/ColorMagic/spaces/lab.cpp
index 3d24dfe..93fd4c1 100644
--- a/ColorMagic/spaces/lab.cpp
+++ b/ColorMagic/spaces/lab.cpp
@@ -7,6 +7,7 @@ color_space::lab::lab(float luminance, float a, float b, float alpha, rgb_color_
 	this->luminance(luminance);
 	this->a(a);
 	this->b(b);
+	this->alpha(alpha);
 }
 
 color_space::lab::lab(const color_space::lab & other) : color_base(other.alpha(), other.get_rgb_color_space(), 3, other.get_component_max(), other.get_component_min())
diff --git a/ColorMagic/spaces/lch_ab.cpp b/ColorMagic/spaces/lch_ab.cpp
index 891688d..28b15cb 100644
--- a/ColorMagic/spaces/lch_ab.cpp
+++ b/ColorMagic/spaces/lch_ab.cpp
@@ -7,6 +7,7 @@ color_space::lch_ab::lch_ab(float luminance, float chroma, float hue, float alph
 	this->luminance(luminance);
 	this->chroma(chroma);
 	this->hue(hue);
+	this->alpha(alpha);
 }
 
 color_space::lch_ab::lch_ab(const lch_ab & other) : color_base(other.alpha(), other.get_rgb_color_space(), 3, other.get_component_max(), other.get_component_min())
diff --git a/ColorMagic/spaces/lch_uv.cpp b/ColorMagic/spaces/lch_uv.cpp
index 4c6bef9..1d1d1dd 100644
--- a/ColorMagic/spaces/lch_uv.cpp
+++ b/ColorMagic/spaces/lch_uv.cpp
@@ -7,6 +7,7 @@ color_space::lch_uv::lch_uv(float luminance, float chroma, float hue, float alph
 	this->luminance(luminance);
 	this->chroma(chroma);
 	this->hue(hue);
+	this->alpha(alpha);
 }
 
 color_space::lch_uv::lch_uv(const lch_uv & other) : color_base(other.alpha(), other.get_rgb_color_space(), 3, other.get_component_max(), other.get_component_min())
diff --git a/ColorMagic/spaces/rgb_deepcolor.cpp b/ColorMagic/spaces/rgb_deepcolor.cpp
index a23e8a8..36c2bec 100644
--- a/ColorMagic/spaces/rgb_deepcolor.cpp
+++ b/ColorMagic/spaces/rgb_deepcolor.cpp
@@ -7,6 +7,7 @@ color_space::rgb_deepcolor::rgb_deepcolor(float value, float alpha, rgb_color_sp
 	this->red(value);
 	this->green(value);
 	this->blue(value);
+	this->alpha(alpha);
 }
 
 color_space::rgb_deepcolor::rgb_deepcolor(float r, float g, float b, float alpha, rgb_color_space_definition* color_space) : color_base(alpha, color_space, 3)
@@ -15,6 +16,7 @@ color_space::rgb_deepcolor::rgb_deepcolor(float r, float g, float b, float alpha
 	this->red(r);
 	this->green(g);
 	this->blue(b);
+	this->alpha(alpha);
 }
 
 color_space::rgb_deepcolor::rgb_deepcolor(const color_space::rgb_deepcolor & other) : color_base(other.alpha(), other.get_rgb_color_space(), 3, other.get_component_max(), other.get_component_min())
diff --git a/ColorMagic/spaces/xyy.cpp b/ColorMagic/spaces/xyy.cpp
index 9c7ceb5..6e09125 100644
--- a/ColorMagic/spaces/xyy.cpp
+++ b/ColorMagic/spaces/xyy.cpp
@@ -7,6 +7,7 @@ color_space::xyy::xyy(float x, float y, float Y, float alpha, rgb_color_space_de
 	this->x(x);
 	this->y(y);
 	this->Y(Y);
+	this->alpha(alpha);
 }
 
 color_space::xyy::xyy(const xyy & other) : color_base(other.alpha(), other.get_rgb_color_space(), 3, other.get_component_max(), other.get_component_min())
diff --git a/ColorMagic/spaces/xyz.cpp b/ColorMagic/spaces/xyz.cpp
index 7cfc96d..a051b29 100644
--- a/ColorMagic/spaces/xyz.cpp
+++ b/ColorMagic/spaces/xyz.cpp
@@ -7,6 +7,7 @@ color_space::xyz::xyz(float x, float y, float z, float alpha, rgb_color_space_de
 	this->x(x);
 	this->y(y);
 	this->z(z);
+	this->alpha(alpha);
 }
 
 color_space::xyz::xyz(const xyz & other) : color_base(other.alpha(), other.get_rgb_color_space(), 3, other.get_component_max(), other.get_component_min())
-- 
2.43.0


From 30b1d897ad78ccecefc1d2b7cda9252c02cde9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:04 +0000
Subject: [PATCH 12/46] fix: matrix insert indexes row-major data of non-square
 matrices by column count

---
 ColorMagic/utils/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index 199565c..656245e 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -513,7 +513,7 @@ public:
 			{
 				for (int j = 0; j < m_columns; j++)
 				{
-					this->m_values[i][j] = values[i * m_rows + j];
+					this->m_values[i][j] = values[i * m_columns + j];
 				}
 			}
 		}
-- 
2.43.0


From 7ac23413943a14f8c288f6d579794f326b8b6b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:16 +0000
Subject: [PATCH 13/46] fix: matrix product of non-square matrices

---
 ColorMagic/utils/matrix.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index 656245e..f9fb647 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -213,15 +213,16 @@ public:
 	//! Multiply two matrices
 	matrix<T> operator*(const matrix<T>& other)
 	{
-		int rows = other.rows();
+		int rows = m_rows;
 		int cols = other.columns();
+		if (m_columns != other.rows()) throw std::invalid_argument("Matrix: row count of the right matrix has to equal the column count of the left matrix.");
 		matrix result(rows, cols);
 
 		for (int i = 0; i < rows; i++)
 		{
 			for (int j = 0; j < cols; j++)
 			{
-				for (int k = 0; k < rows; k++)
+				for (int k = 0; k < m_columns; k++)
 				{
 					result(i, j) += this->m_values[i][k] * other(k, j);
 				}
-- 
2.43.0


From 5f526cc1e786b749cda2592a1c433259c91a1141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:45 +0000
Subject: [PATCH 14/46] fix: product of non-square matrix and vector

---
 ColorMagic/utils/matrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index f9fb647..112539c 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -311,7 +311,8 @@ public:
 	*/
 	std::vector<T> operator*(const std::vector<T>& other)
 	{
-		std::vector<T> result(other.size());
+		if (other.size() != m_columns) throw std::invalid_argument("Matrix: the size of the vector has to equal the column count of the matrix.");
+		std::vector<T> result(m_rows);
 
 		for (int i = 0; i < m_rows; i++)
 		{
-- 
2.43.0


From 07f100d43d7f0aae1a00d009055f9501f1f16c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 15/46] fix: transpose of non-square matrices

---
 ColorMagic/utils/matrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index 112539c..881c3f8 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -345,11 +345,11 @@ public:
 	*/
 	matrix<T> transpose()
 	{
-		matrix result(m_rows, m_columns);
+		matrix result(m_columns, m_rows);
 
-		for (int i = 0; i < m_rows; i++)
+		for (int i = 0; i < m_columns; i++)
 		{
-			for (int j = 0; j < m_columns; j++)
+			for (int j = 0; j < m_rows; j++)
 			{
 				result(i, j) = this->m_values[j][i];
 			}
-- 
2.43.0


From ebb2aea968edf48289514abb0ad26f602eece2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:08 +0000
Subject: [PATCH 16/46] fix: matrix access rejects negative indices and does
 not read past its error message

---
 ColorMagic/utils/matrix.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index 881c3f8..a2b9ef9 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -6,6 +6,7 @@
 #pragma once
 #include <vector>
 #include <stdexcept>
+#include <string>
 
 template <typename T> class matrix
 {
@@ -110,16 +111,16 @@ public:
 	//! Accessment operator
 	T& operator() (int row, int column)
 	{
-		if (row >= m_rows) throw std::out_of_range(std::string("Matrix: %d is >= row count of matrix.", row));
-		if (column >= m_columns) throw std::out_of_range(std::string("Matrix: %d is >= column count of matrix.", column));
+		if (row < 0 || row >= m_rows) throw std::out_of_range("Matrix: " + std::to_string(row) + " is not a valid row index of the matrix.");
+		if (column < 0 || column >= m_columns) throw std::out_of_range("Matrix: " + std::to_string(column) + " is not a valid column index of the matrix.");
 		return m_values[row][column];
 	}
 
 	//! Accessment operator
 	const T& operator() (int row, int column) const
 	{
-		if (row >= m_rows) throw std::out_of_range(std::string("Matrix: %d is >= row count of matrix.", row));
-		if (column >= m_columns) throw std::out_of_range(std::string("Matrix: %d is >= column count of matrix.", column));
+		if (row < 0 || row >= m_rows) throw std::out_of_range("Matrix: " + std::to_string(row) + " is not a valid row index of the matrix.");
+		if (column < 0 || column >= m_columns) throw std::out_of_range("Matrix: " + std::to_string(column) + " is not a valid column index of the matrix.");
 		return m_values[row][column];
 	}
 
-- 
2.43.0


From 6eef6108b5125973205d7b9d36b0bff305dea1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:20 +0000
Subject: [PATCH 17/46] fix: adding or subtracting matrices of different sizes
 is rejected

---
 ColorMagic/utils/matrix.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index a2b9ef9..17e9859 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -166,6 +166,7 @@ public:
 	//! Add two matrices
 	matrix<T> operator+(const matrix<T>& other)
 	{
+		if (m_rows != other.rows() || m_columns != other.columns()) throw std::invalid_argument("Matrix: both matrices need to have the same size.");
 		matrix result(m_rows, m_columns);
 
 		for (int i = 0; i < m_rows; i++)
@@ -190,6 +191,7 @@ public:
 	//! Subtract two matrices
 	matrix<T> operator-(const matrix<T>& other)
 	{
+		if (m_rows != other.rows() || m_columns != other.columns()) throw std::invalid_argument("Matrix: both matrices need to have the same size.");
 		matrix result(m_rows, m_columns);
 
 		for (int i = 0; i < m_rows; i++)
-- 
2.43.0


From b33206a886dc2e31484713ad2cb9a7215a19752a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 18/46] fix: removing a gamma curve part returns a value

---
 ColorMagic/spaces/gamma.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ColorMagic/spaces/gamma.h b/ColorMagic/spaces/gamma.h
index 02dcbc5..b336687 100644
--- a/ColorMagic/spaces/gamma.h
+++ b/ColorMagic/spaces/gamma.h
@@ -286,6 +286,7 @@ namespace color_space
 		bool remove_gamma_curve_part(std::vector<gamma_part*>::iterator position)
 		{
 			m_gamma_curve_parts.erase(position);
+			return true;
 		}
 
 		//! Replace the list of default gamma parts.
@@ -309,6 +310,7 @@ namespace color_space
 		bool remove_inverse_gamma_curve_part(std::vector<gamma_part*>::iterator position)
 		{
 			m_inverse_gamma_curve_parts.erase(position);
+			return true;
 		}
 
 		//! Replace the list of inverse gamma parts.
-- 
2.43.0


From 942de38a09d3bfedb954d7a7d62a467e06d5be8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:02 +0000
Subject: [PATCH 19/46] fix: sorting gamma curve parts tolerates null parts

---
 ColorMagic/spaces/gamma.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/spaces/gamma.h b/ColorMagic/spaces/gamma.h
index b336687..bec3abe 100644
--- a/ColorMagic/spaces/gamma.h
+++ b/ColorMagic/spaces/gamma.h
@@ -354,13 +354,13 @@ namespace color_space
 		//! Sort the default gamma parts in ascending order depending on the upper border.
 		void sort_gamma_parts()
 		{
-			std::sort(m_gamma_curve_parts.begin(), m_gamma_curve_parts.end(), [](gamma_part* gp1, gamma_part* gp2) { return (*gp1) < (*gp2); });
+			std::sort(m_gamma_curve_parts.begin(), m_gamma_curve_parts.end(), [](gamma_part* gp1, gamma_part* gp2) { return gp1 != nullptr && (gp2 == nullptr || (*gp1) < (*gp2)); });
 		}
 
 		//! Sort the inverse gamma parts in ascending order depending on the upper border.
 		void sort_inverse_gamma_parts()
 		{
-			std::sort(m_inverse_gamma_curve_parts.begin(), m_inverse_gamma_curve_parts.end(), [](gamma_part* gp1, gamma_part* gp2) { return (*gp1) < (*gp2); });
+			std::sort(m_inverse_gamma_curve_parts.begin(), m_inverse_gamma_curve_parts.end(), [](gamma_part* gp1, gamma_part* gp2) { return gp1 != nullptr && (gp2 == nullptr || (*gp1) < (*gp2)); });
 		}
 
 		//! The default gamma parts in ascending order depending on their upper border.
-- 
2.43.0


From fa4ce2ae1fce0d846f232a9a8cd03e9cb4d88905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:14 +0000
Subject: [PATCH 20/46] fix: comparing gamma parts does not read uninitialised
 bytes of std::function

---
 ColorMagic/spaces/gamma.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ColorMagic/spaces/gamma.h b/ColorMagic/spaces/gamma.h
index bec3abe..ff7531b 100644
--- a/ColorMagic/spaces/gamma.h
+++ b/ColorMagic/spaces/gamma.h
@@ -145,7 +145,10 @@ namespace color_space
 		{
 			if (!m_gamma_function) return 0;
 
-			return *(long *)(char *)&m_gamma_function;
+			auto function_pointer = m_gamma_function.target<float(*)(float)>();
+			if (function_pointer) return (long)(size_t)*function_pointer;
+
+			return (long)m_gamma_function.target_type().hash_code();
 		}
 
 	protected:
-- 
2.43.0


From 7424a00a34493f9abf5ef507480df1483de098af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:25 +0000
Subject: [PATCH 21/46] fix: upper border of the linear part of the inverse
 ROMM gamma

---
 ColorMagic/spaces/gamma.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/spaces/gamma.h b/ColorMagic/spaces/gamma.h
index ff7531b..a583b68 100644
--- a/ColorMagic/spaces/gamma.h
+++ b/ColorMagic/spaces/gamma.h
@@ -464,7 +464,7 @@ namespace color_space
 			g.push_back(new gamma_part([](float input) { return 16.f * input; }, 0.001953f));
 			g.push_back(new gamma_part([](float input) { return std::powf(input, 1.f / 1.8f); }, 1.f));
 
-			ig.push_back(new gamma_part([](float input) { return input / 16.f; }, 0.001953f));
+			ig.push_back(new gamma_part([](float input) { return input / 16.f; }, 0.031248f));
 			ig.push_back(new gamma_part([](float input) { return std::powf(input, 1.8f); }, 1.f));
 
 			return new gamma(g, ig);
-- 
2.43.0


From 518e34b0cf26935dbcf8d3736b806aff93b25c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 22/46] fix: UHDTV gamma preset had gamma and inverse gamma
 swapped

---
 ColorMagic/spaces/gamma.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ColorMagic/spaces/gamma.h b/ColorMagic/spaces/gamma.h
index a583b68..96b7ad1 100644
--- a/ColorMagic/spaces/gamma.h
+++ b/ColorMagic/spaces/gamma.h
@@ -476,11 +476,11 @@ namespace color_space
 			std::vector<gamma_part*> g;
 			std::vector<gamma_part*> ig;
 
-			g.push_back(new gamma_part([](float input) { return input / 4.5f; }, 0.081f));
-			g.push_back(new gamma_part([](float input) { return std::powf((input + 0.099f) / 1.099f, 1.f / 0.45f); }, 1.f));
+			g.push_back(new gamma_part([](float input) { return 4.5f * input; }, 0.018053968510807f));
+			g.push_back(new gamma_part([](float input) { return 1.099f * std::powf(input, 0.45f) - 0.099f; }, 1.f));
 
-			ig.push_back(new gamma_part([](float input) { return 4.5f * input; }, 0.018053968510807f));
-			ig.push_back(new gamma_part([](float input) { return 1.099f * std::powf(input, 0.45f) - 0.099f; }, 1.f));
+			ig.push_back(new gamma_part([](float input) { return input / 4.5f; }, 0.081f));
+			ig.push_back(new gamma_part([](float input) { return std::powf((input + 0.099f) / 1.099f, 1.f / 0.45f); }, 1.f));
 
 			return new gamma(g, ig);
 		}
-- 
2.43.0


From 98c4b753cee5376d4a1d5321a68e2076965a5b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 23/46] fix: misplaced decimal point in tristimulus values of
 white point presets

---
 ColorMagic/spaces/white_point.h | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/ColorMagic/spaces/white_point.h b/ColorMagic/spaces/white_point.h
index 5e6fae7..c6d10b3 100644
--- a/ColorMagic/spaces/white_point.h
+++ b/ColorMagic/spaces/white_point.h
@@ -249,7 +249,7 @@ namespace color_space
 		/*!
 		* Represents incandescent / tungsten (2856 Kelvin)
 		*/
-		white_point* A_2Degree() { return new white_point(0.10985f, 1.f, 0.3558f, 0.4475f, 0.4074f); }
+		white_point* A_2Degree() { return new white_point(1.0985f, 1.f, 0.3558f, 0.4475f, 0.4074f); }
 
 		//! CIE_B tristimulus white (2�)
 		/*!
@@ -269,7 +269,7 @@ namespace color_space
 		/*!
 		* Represents equal energy (5454 Kelvin)
 		*/
-		white_point* E_2Degree() { return new white_point(0.1f, 1.f, 0.1f, 0.3333f, 0.3333f); }
+		white_point* E_2Degree() { return new white_point(1.f, 1.f, 1.f, 0.3333f, 0.3333f); }
 
 		//! CIE_F1 tristimulus white (2�)
 		/*!
@@ -287,13 +287,13 @@ namespace color_space
 		/*!
 		* Represents white fluorescent (3450 Kelvin)
 		*/
-		white_point* F3_2Degree() { return new white_point(0.10375f, 1.f, 0.4986f, 0.4090f, 0.3943f); }
+		white_point* F3_2Degree() { return new white_point(1.0375f, 1.f, 0.4986f, 0.4090f, 0.3943f); }
 
 		//! CIE_F4 tristimulus white (2�)
 		/*!
 		* Represents warm white fluorescent (2940 Kelvin)
 		*/
-		white_point* F4_2Degree() { return new white_point(0.10914f, 1.f, 0.3881f, 0.4401f, 0.4033f); }
+		white_point* F4_2Degree() { return new white_point(1.0914f, 1.f, 0.3881f, 0.4401f, 0.4033f); }
 
 		//! CIE_F5 tristimulus white (2�)
 		/*!
@@ -323,7 +323,7 @@ namespace color_space
 		/*!
 		* Represents cool white deluxe fluorescent (4150 Kelvin)
 		*/
-		white_point* F9_2Degree() { return new white_point(0.10036f, 1.f, 0.6786f, 0.3741f, 0.3728f); }
+		white_point* F9_2Degree() { return new white_point(1.0036f, 1.f, 0.6786f, 0.3741f, 0.3728f); }
 
 		//! CIE_F10 tristimulus white (2�)
 		/*!
@@ -335,13 +335,13 @@ namespace color_space
 		/*!
 		* Represents Philips TL84, Ultralume 40 (4000 Kelvin)
 		*/
-		white_point* F11_2Degree() { return new white_point(0.10096f, 1.f, 0.6437f, 0.3805f, 0.3768f); }
+		white_point* F11_2Degree() { return new white_point(1.0096f, 1.f, 0.6437f, 0.3805f, 0.3768f); }
 
 		//! CIE_F12 tristimulus white (2�)
 		/*!
 		* Represents Philips TL83, Ultralume 30 (3000 Kelvin)
 		*/
-		white_point* F12_2Degree() { return new white_point(0.10804f, 1.f, 0.3922f, 0.4369f, 0.4044f); }
+		white_point* F12_2Degree() { return new white_point(1.0804f, 1.f, 0.3922f, 0.4369f, 0.4044f); }
 
 
 		//! CIE_D50 tristimulus white (10�)
@@ -373,7 +373,7 @@ namespace color_space
 		/*!
 		* Represents incandescent / tungsten (2856 Kelvin)
 		*/
-		white_point* A_10Degree() { return new white_point(0.11114f, 1.f, 0.3520f, 0.4511f, 0.4059f); }
+		white_point* A_10Degree() { return new white_point(1.1114f, 1.f, 0.3520f, 0.4511f, 0.4059f); }
 
 		//! CIE_B tristimulus white (10�)
 		/*!
@@ -393,7 +393,7 @@ namespace color_space
 		/*!
 		* Represents equal energy (5454 Kelvin)
 		*/
-		white_point* E_10Degree() { return new white_point(0.1f, 1.f, 0.1f, 0.3333f, 0.3333f); }
+		white_point* E_10Degree() { return new white_point(1.f, 1.f, 1.f, 0.3333f, 0.3333f); }
 
 		//! CIE_F1 tristimulus white (10�)
 		/*!
@@ -405,19 +405,19 @@ namespace color_space
 		/*!
 		* Represents cool white fluorescent (4230 Kelvin)
 		*/
-		white_point* F2_10Degree() { return new white_point(0.10328f, 1.f, 0.6902f, 0.3792f, 0.3672f); }
+		white_point* F2_10Degree() { return new white_point(1.0328f, 1.f, 0.6902f, 0.3792f, 0.3672f); }
 
 		//! CIE_F3 tristimulus white (10�)
 		/*!
 		* Represents white fluorescent (3450 Kelvin)
 		*/
-		white_point* F3_10Degree() { return new white_point(0.10896f, 1.f, 0.5196f, 0.4175f, 0.3832f); }
+		white_point* F3_10Degree() { return new white_point(1.0896f, 1.f, 0.5196f, 0.4175f, 0.3832f); }
 
 		//! CIE_F4 tristimulus white (10�)
 		/*!
 		* Represents warm white fluorescent (2940 Kelvin)
 		*/
-		white_point* F4_10Degree() { return new white_point(0.11496f, 1.f, 0.4096f, 0.4492f, 0.3907f); }
+		white_point* F4_10Degree() { return new white_point(1.1496f, 1.f, 0.4096f, 0.4492f, 0.3907f); }
 
 		//! CIE_F5 tristimulus white (10�)
 		/*!
@@ -429,7 +429,7 @@ namespace color_space
 		/*!
 		* Represents lite white fluorescent (4150 Kelvin)
 		*/
-		white_point* F6_10Degree() { return new white_point(0.10214f, 1.f, 0.6207f, 0.3865f, 0.3784f); }
+		white_point* F6_10Degree() { return new white_point(1.0214f, 1.f, 0.6207f, 0.3865f, 0.3784f); }
 
 		//! CIE_F7 tristimulus white (10�)
 		/*!
@@ -447,7 +447,7 @@ namespace color_space
 		/*!
 		* Represents cool white deluxe fluorescent (4150 Kelvin)
 		*/
-		white_point* F9_10Degree() { return new white_point(0.10211f, 1.f, 0.6782f, 0.3782f, 0.3704f); }
+		white_point* F9_10Degree() { return new white_point(1.0211f, 1.f, 0.6782f, 0.3782f, 0.3704f); }
 
 		//! CIE_F10 tristimulus white (10�)
 		/*!
@@ -459,12 +459,12 @@ namespace color_space
 		/*!
 		* Represents Philips TL84, Ultralume 40 (4000 Kelvin)
 		*/
-		white_point* F11_10Degree() { return new white_point(0.10386f, 1.f, 0.6562f, 0.3854f, 0.3710f); }
+		white_point* F11_10Degree() { return new white_point(1.0386f, 1.f, 0.6562f, 0.3854f, 0.3710f); }
 
 		//! CIE_F12 tristimulus white (10�)
 		/*!
 		* Represents Philips TL83, Ultralume 30 (3000 Kelvin)
 		*/
-		white_point* F12_10Degree() { return new white_point(0.11142f, 1.f, 0.4035f, 0.4425f, 0.3971f); }
+		white_point* F12_10Degree() { return new white_point(1.1142f, 1.f, 0.4035f, 0.4425f, 0.3971f); }
 	};
 }
\ No newline at end of file
-- 
2.43.0


From cc2ba7f517d6c3fa00ed8f78732d5d22a62d3b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 24/46] fix: hex code parser accepted # inside the code and
 read uninitialised values

---
 ColorMagic/spaces/rgb_truecolor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/spaces/rgb_truecolor.cpp b/ColorMagic/spaces/rgb_truecolor.cpp
index b35c6e2..556cf20 100644
--- a/ColorMagic/spaces/rgb_truecolor.cpp
+++ b/ColorMagic/spaces/rgb_truecolor.cpp
@@ -21,7 +21,7 @@ color_space::rgb_truecolor::rgb_truecolor(float r, float g, float b, float alpha
 
 color_space::rgb_truecolor::rgb_truecolor(std::string hex_code, rgb_color_space_definition* color_space) : color_base(0, color_space, 3, 255.f, 0.f)
 {
-	std::regex regex("^[#0-9A-Fa-f]+$");
+	std::regex regex("^#?[0-9A-Fa-f]+$");
 
 	if (!std::regex_match(hex_code, regex))
 	{
-- 
2.43.0


From 0033edaced73c34698b2f77baa4185c43c9bf9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:47 +0000
Subject: [PATCH 25/46] fix: very long hex codes are rejected instead of
 exhausting the stack

---
 ColorMagic/spaces/rgb_truecolor.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ColorMagic/spaces/rgb_truecolor.cpp b/ColorMagic/spaces/rgb_truecolor.cpp
index 556cf20..5853174 100644
--- a/ColorMagic/spaces/rgb_truecolor.cpp
+++ b/ColorMagic/spaces/rgb_truecolor.cpp
@@ -23,6 +23,12 @@ color_space::rgb_truecolor::rgb_truecolor(std::string hex_code, rgb_color_space_
 {
 	std::regex regex("^#?[0-9A-Fa-f]+$");
 
+	if (hex_code.length() > 9)
+	{
+		// too long for any supported format (and std::regex may run out of stack on very long strings)
+		throw std::invalid_argument("Wrong hex code format. Use one of the following formats: #AARRGGBB, #RRGGBB, AARRGGBB, RRGGBB");
+	}
+
 	if (!std::regex_match(hex_code, regex))
 	{
 		throw std::invalid_argument(std::string("The given hex code '" + hex_code + "' contains illegal values. Allowed are only numbers (0-9) and digits (a-f or A-F)."));
-- 
2.43.0


From 4b3c737ba2aa59ea428e8bd591768a2aa54793d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 26/46] fix: adjusting a hsl color in hsl space no longer
 modifies the input color

---
 ColorMagic/manipulation/color_adjustments.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_adjustments.cpp b/ColorMagic/manipulation/color_adjustments.cpp
index 815adbe..112fc34 100644
--- a/ColorMagic/manipulation/color_adjustments.cpp
+++ b/ColorMagic/manipulation/color_adjustments.cpp
@@ -27,7 +27,7 @@ color_space::color_base * color_manipulation::color_adjustments::saturate_in_hsl
 {
 	if (percentage == 0.f) return color;
 
-	auto color_hsl = static_cast<color_space::hsl*>(color_manipulation::color_converter::convertTo(color, color_type::HSL));
+	auto color_hsl = new color_space::hsl(*static_cast<color_space::hsl*>(color_manipulation::color_converter::convertTo(color, color_type::HSL)));
 
 	auto factor = 1.f + percentage;
 	color_hsl->saturation(color_hsl->saturation() * factor);
@@ -61,7 +61,7 @@ color_space::color_base * color_manipulation::color_adjustments::luminate_in_hsl
 {
 	if (percentage == 0.f) return color;
 
-	auto color_hsl = static_cast<color_space::hsl*>(color_manipulation::color_converter::convertTo(color, color_type::HSL));
+	auto color_hsl = new color_space::hsl(*static_cast<color_space::hsl*>(color_manipulation::color_converter::convertTo(color, color_type::HSL)));
 
 	auto factor = 1.f + percentage;
 	color_hsl->lightness(color_hsl->lightness() * factor);
-- 
2.43.0


From 7931e30c2f479b7f1b7f7dd99d9ac779a14bee7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 27/46] fix: color combinations of true colors keep their alpha

---
 ColorMagic/manipulation/color_combinations.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ColorMagic/manipulation/color_combinations.cpp b/ColorMagic/manipulation/color_combinations.cpp
index 90daf8d..396ebe4 100644
--- a/ColorMagic/manipulation/color_combinations.cpp
+++ b/ColorMagic/manipulation/color_combinations.cpp
@@ -36,7 +36,7 @@ std::vector<color_space::color_base*> color_manipulation::color_combinations::cr
 
 	for (auto i = 1; i <= number_of_colors - 1; ++i)
 	{
-		auto new_color = new color_space::hsl(color_hsl->hue() + (i * degrees), color_hsl->saturation(), color_hsl->lightness(), color->alpha(), color->get_rgb_color_space());
+		auto new_color = new color_space::hsl(color_hsl->hue() + (i * degrees), color_hsl->saturation(), color_hsl->lightness(), color_hsl->alpha(), color->get_rgb_color_space());
 		combination.push_back(color_manipulation::color_converter::convertTo(new_color, color->get_color_type()));
 	}
 
@@ -51,9 +51,9 @@ std::vector<color_space::color_base*> color_manipulation::color_combinations::cr
 	std::vector<color_space::color_base*> triplet;
 	auto color_hsl = static_cast<color_space::hsl*>(color_manipulation::color_converter::convertTo(base_color, color_type::HSL));
 
-	triplet.push_back(color_manipulation::color_converter::convertTo(new color_space::hsl(color_hsl->hue() - distance_between, color_hsl->saturation(), color_hsl->lightness(), base_color->alpha(), base_color->get_rgb_color_space()), base_color->get_color_type()));
+	triplet.push_back(color_manipulation::color_converter::convertTo(new color_space::hsl(color_hsl->hue() - distance_between, color_hsl->saturation(), color_hsl->lightness(), color_hsl->alpha(), base_color->get_rgb_color_space()), base_color->get_color_type()));
 	triplet.push_back(base_color);
-	triplet.push_back(color_manipulation::color_converter::convertTo(new color_space::hsl(color_hsl->hue() + distance_between, color_hsl->saturation(), color_hsl->lightness(), base_color->alpha(), base_color->get_rgb_color_space()), base_color->get_color_type()));
+	triplet.push_back(color_manipulation::color_converter::convertTo(new color_space::hsl(color_hsl->hue() + distance_between, color_hsl->saturation(), color_hsl->lightness(), color_hsl->alpha(), base_color->get_rgb_color_space()), base_color->get_color_type()));
 
 	return triplet;
 }
@@ -75,13 +75,13 @@ std::vector<color_space::color_base*> color_manipulation::color_combinations::cr
 		switch (mode)
 		{
 		case 0:
-			combination.push_back(color_converter::convertTo(color_adjustments::saturate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), base_color->alpha(), base_color->get_rgb_color_space()), amount), in_color_type));
+			combination.push_back(color_converter::convertTo(color_adjustments::saturate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), last_hsl->alpha(), base_color->get_rgb_color_space()), amount), in_color_type));
 			break;
 		case 1:
-			combination.push_back(color_converter::convertTo(color_adjustments::luminate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), base_color->alpha(), base_color->get_rgb_color_space()), amount), in_color_type));
+			combination.push_back(color_converter::convertTo(color_adjustments::luminate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), last_hsl->alpha(), base_color->get_rgb_color_space()), amount), in_color_type));
 			break;
 		case 2:
-			combination.push_back(color_converter::convertTo(color_adjustments::luminate_in_hsl_space(color_adjustments::saturate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), base_color->alpha(), base_color->get_rgb_color_space()), amount), amount), in_color_type));
+			combination.push_back(color_converter::convertTo(color_adjustments::luminate_in_hsl_space(color_adjustments::saturate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), last_hsl->alpha(), base_color->get_rgb_color_space()), amount), amount), in_color_type));
 			break;
 		default:
 			throw new std::invalid_argument("Invalid mode.");;
-- 
2.43.0


From f96ec4a97bb95f90ba16b43544b7cc454c6a1256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:07 +0000
Subject: [PATCH 28/46] fix: color combinations reject negative color counts

---
 ColorMagic/manipulation/color_combinations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_combinations.cpp b/ColorMagic/manipulation/color_combinations.cpp
index 396ebe4..f6ac972 100644
--- a/ColorMagic/manipulation/color_combinations.cpp
+++ b/ColorMagic/manipulation/color_combinations.cpp
@@ -23,7 +23,7 @@ std::vector<color_space::color_base*> color_manipulation::color_combinations::cr
 
 std::vector<color_space::color_base*> color_manipulation::color_combinations::create_combination(color_space::color_base * color, int number_of_colors)
 {
-	if (number_of_colors == 0) throw new std::invalid_argument("A color combination with 0 colors in it is invalid. Chose a color count >= 2");
+	if (number_of_colors <= 0) throw new std::invalid_argument("A color combination with 0 or less colors in it is invalid. Chose a color count >= 2");
 	if (number_of_colors == 1) throw new std::invalid_argument("A color combination with 1 colors in it is invalid since it would just return the input color. Chose a color count >= 2");
 	if (number_of_colors > 360) throw new std::invalid_argument("A color combination with more than 360 colors is invalid.");
 
-- 
2.43.0


From 988d7b7512d0a093d5289b9485c2f6ecb0c3e95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 29/46] fix: blending keeps components in range after dividing
 by the resulting alpha

---
 ColorMagic/manipulation/base_color_blend.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ColorMagic/manipulation/base_color_blend.h b/ColorMagic/manipulation/base_color_blend.h
index dc7f702..7a028b8 100644
--- a/ColorMagic/manipulation/base_color_blend.h
+++ b/ColorMagic/manipulation/base_color_blend.h
@@ -67,6 +67,10 @@ namespace color_manipulation
 			}
 
 			resulting_color->alpha_divide();
+			for (size_t i = 0; i < resulting_color->get_component_vector().size(); ++i)
+			{
+				resulting_color->set_component(resulting_color->get_component(i), i);
+			}
 			return resulting_color;
 		}
 	};
-- 
2.43.0


From 77a62974a83bed703a9fbf8b5ccfaffb9f3d9c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 30/46] fix: non separable blend modes validate their input
 colors

---
 ColorMagic/manipulation/color_blend.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ColorMagic/manipulation/color_blend.cpp b/ColorMagic/manipulation/color_blend.cpp
index af82a46..0db19bb 100644
--- a/ColorMagic/manipulation/color_blend.cpp
+++ b/ColorMagic/manipulation/color_blend.cpp
@@ -442,6 +442,11 @@ color_space::color_base * color_manipulation::color_blend::custom_componentwise_
 
 color_space::color_base * color_manipulation::color_blend::hue(color_space::color_base * source, color_space::color_base * destination, bool use_source_region, bool use_destination_region)
 {
+	// Check input params
+	if (source == nullptr) throw new std::invalid_argument("source color is null.");
+	if (destination == nullptr) throw new std::invalid_argument("destination color is null.");
+	if (source->get_rgb_color_space() != destination->get_rgb_color_space()) throw new std::invalid_argument("The rgb color space definitions of both colors do not match.");
+
 	color_space::hcy* s_hcy = color_manipulation::color_converter::to_hcy(source);
 	color_space::hcy* d_hcy = color_manipulation::color_converter::to_hcy(destination);
 	color_space::hcy* result = new color_space::hcy(s_hcy->hue(), d_hcy->chroma(), d_hcy->luma(), s_hcy->alpha(), s_hcy->get_rgb_color_space());
@@ -450,6 +455,11 @@ color_space::color_base * color_manipulation::color_blend::hue(color_space::colo
 
 color_space::color_base * color_manipulation::color_blend::saturation(color_space::color_base * source, color_space::color_base * destination, bool use_source_region, bool use_destination_region)
 {
+	// Check input params
+	if (source == nullptr) throw new std::invalid_argument("source color is null.");
+	if (destination == nullptr) throw new std::invalid_argument("destination color is null.");
+	if (source->get_rgb_color_space() != destination->get_rgb_color_space()) throw new std::invalid_argument("The rgb color space definitions of both colors do not match.");
+
 	color_space::hcy* s_hcy = color_manipulation::color_converter::to_hcy(source);
 	color_space::hcy* d_hcy = color_manipulation::color_converter::to_hcy(destination);
 	color_space::hcy* result = new color_space::hcy(d_hcy->hue(), s_hcy->chroma(), d_hcy->luma(), s_hcy->alpha(), s_hcy->get_rgb_color_space());
@@ -458,6 +468,11 @@ color_space::color_base * color_manipulation::color_blend::saturation(color_spac
 
 color_space::color_base * color_manipulation::color_blend::color(color_space::color_base * source, color_space::color_base * destination, bool use_source_region, bool use_destination_region)
 {
+	// Check input params
+	if (source == nullptr) throw new std::invalid_argument("source color is null.");
+	if (destination == nullptr) throw new std::invalid_argument("destination color is null.");
+	if (source->get_rgb_color_space() != destination->get_rgb_color_space()) throw new std::invalid_argument("The rgb color space definitions of both colors do not match.");
+
 	color_space::hcy* s_hcy = color_manipulation::color_converter::to_hcy(source);
 	color_space::hcy* d_hcy = color_manipulation::color_converter::to_hcy(destination);
 	color_space::hcy* result = new color_space::hcy(s_hcy->hue(), s_hcy->chroma(), d_hcy->luma(), s_hcy->alpha(), s_hcy->get_rgb_color_space());
@@ -466,6 +481,11 @@ color_space::color_base * color_manipulation::color_blend::color(color_space::co
 
 color_space::color_base * color_manipulation::color_blend::luminosity(color_space::color_base * source, color_space::color_base * destination, bool use_source_region, bool use_destination_region)
 {
+	// Check input params
+	if (source == nullptr) throw new std::invalid_argument("source color is null.");
+	if (destination == nullptr) throw new std::invalid_argument("destination color is null.");
+	if (source->get_rgb_color_space() != destination->get_rgb_color_space()) throw new std::invalid_argument("The rgb color space definitions of both colors do not match.");
+
 	color_space::hcy* s_hcy = color_manipulation::color_converter::to_hcy(source);
 	color_space::hcy* d_hcy = color_manipulation::color_converter::to_hcy(destination);
 	color_space::hcy* result = new color_space::hcy(d_hcy->hue(), d_hcy->chroma(), s_hcy->luma(), s_hcy->alpha(), s_hcy->get_rgb_color_space());
-- 
2.43.0


From 463459988f75d558a55fb73d736f2325eedb2014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 31/46] fix: average_cmyk accumulates alpha in its own slot

---
 ColorMagic/manipulation/color_calculation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_calculation.cpp b/ColorMagic/manipulation/color_calculation.cpp
index 01b1b9d..1430f49 100644
--- a/ColorMagic/manipulation/color_calculation.cpp
+++ b/ColorMagic/manipulation/color_calculation.cpp
@@ -586,7 +586,7 @@ color_space::cmyk * color_manipulation::color_calculation::average_cmyk(std::vec
 		sum[1] += colors[i]->magenta();
 		sum[2] += colors[i]->yellow();
 		sum[3] += colors[i]->black();
-		sum[4] = include_alpha ? sum[3] + colors[i]->alpha() : colors[0]->alpha();
+		sum[4] = include_alpha ? sum[4] + colors[i]->alpha() : colors[0]->alpha();
 	}
 	return new color_space::cmyk(sum[0] / colors.size(), sum[1] / colors.size(), sum[2] / colors.size(), sum[3] / colors.size(), include_alpha ? sum[4] / colors.size() : sum[4], colors[0]->get_rgb_color_space());
 }
-- 
2.43.0


From 57de8bbcca67aa615ff9b35b6f4fda1614cc4323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 32/46] fix: subtract in HSI/HSL/HCY/LAB/LCH honours
 include_alpha

---
 ColorMagic/manipulation/color_calculation.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ColorMagic/manipulation/color_calculation.cpp b/ColorMagic/manipulation/color_calculation.cpp
index 1430f49..b35920e 100644
--- a/ColorMagic/manipulation/color_calculation.cpp
+++ b/ColorMagic/manipulation/color_calculation.cpp
@@ -429,7 +429,7 @@ color_space::hsi * color_manipulation::color_calculation::subtract(color_space::
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_hsi(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight));
+	return color_manipulation::color_converter::to_hsi(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight, include_alpha));
 }
 
 color_space::hsv * color_manipulation::color_calculation::subtract(color_space::hsv * color1, color_space::hsv * color2, float weight, bool include_alpha)
@@ -452,14 +452,14 @@ color_space::hsl * color_manipulation::color_calculation::subtract(color_space::
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_hsl(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight));
+	return color_manipulation::color_converter::to_hsl(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight, include_alpha));
 }
 
 color_space::hcy * color_manipulation::color_calculation::subtract(color_space::hcy * color1, color_space::hcy * color2, float weight, bool include_alpha)
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_hcy(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight));
+	return color_manipulation::color_converter::to_hcy(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight, include_alpha));
 }
 
 color_space::xyz * color_manipulation::color_calculation::subtract(color_space::xyz * color1, color_space::xyz * color2, float weight, bool include_alpha)
@@ -502,21 +502,21 @@ color_space::lab * color_manipulation::color_calculation::subtract(color_space::
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_lab(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight));
+	return color_manipulation::color_converter::to_lab(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight, include_alpha));
 }
 
 color_space::lch_ab * color_manipulation::color_calculation::subtract(color_space::lch_ab * color1, color_space::lch_ab * color2, float weight, bool include_alpha)
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_lch_ab(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight));
+	return color_manipulation::color_converter::to_lch_ab(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight, include_alpha));
 }
 
 color_space::lch_uv * color_manipulation::color_calculation::subtract(color_space::lch_uv * color1, color_space::lch_uv * color2, float weight, bool include_alpha)
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_lch_uv(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight));
+	return color_manipulation::color_converter::to_lch_uv(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight, include_alpha));
 }
 
 color_space::rgb_truecolor * color_manipulation::color_calculation::average_rgb_true(std::vector<color_space::rgb_truecolor*> colors, bool include_alpha)
-- 
2.43.0


From 2547bd342def2c7eed4106b789c277a2b3baebf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 33/46] fix: generic mix and subtract accept weight 0 as
 documented

---
 ColorMagic/manipulation/color_calculation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_calculation.cpp b/ColorMagic/manipulation/color_calculation.cpp
index b35920e..8d9c7d2 100644
--- a/ColorMagic/manipulation/color_calculation.cpp
+++ b/ColorMagic/manipulation/color_calculation.cpp
@@ -207,7 +207,7 @@ color_space::lch_uv * color_manipulation::color_calculation::add(color_space::lc
 
 color_space::color_base * color_manipulation::color_calculation::mix(color_space::color_base * color1, color_space::color_base * color2, float weight, bool include_alpha)
 {
-	if (weight <= 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
+	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
 	switch (color1->get_color_type())
 	{
@@ -343,7 +343,7 @@ color_space::lch_uv * color_manipulation::color_calculation::mix(color_space::lc
 
 color_space::color_base * color_manipulation::color_calculation::subtract(color_space::color_base * color1, color_space::color_base * color2, float weight, bool include_alpha)
 {
-	if (weight <= 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
+	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
 	switch (color1->get_color_type())
 	{
-- 
2.43.0


From 7c9e5b26fb2c45bd964d7da32f107fe199a320d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 34/46] fix: generic add, mix and subtract cover HSI, HCY, xyY
 and CIELUV instead of returning null

---
 ColorMagic/manipulation/color_calculation.cpp | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ColorMagic/manipulation/color_calculation.cpp b/ColorMagic/manipulation/color_calculation.cpp
index 8d9c7d2..59c7f1d 100644
--- a/ColorMagic/manipulation/color_calculation.cpp
+++ b/ColorMagic/manipulation/color_calculation.cpp
@@ -18,10 +18,14 @@ color_space::color_base * color_manipulation::color_calculation::add(color_space
 		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_grey_deep(color1), color_manipulation::color_converter::to_grey_deep(color2), weight1, weight2, include_alpha);
 	case color_type::CMYK:
 		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_cmyk(color1), color_manipulation::color_converter::to_cmyk(color2), weight1, weight2, include_alpha);
+	case color_type::HSI:
+		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_hsi(color1), color_manipulation::color_converter::to_hsi(color2), weight1, weight2, include_alpha);
 	case color_type::HSV:
 		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight1, weight2, include_alpha);
 	case color_type::HSL:
 		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_hsl(color1), color_manipulation::color_converter::to_hsl(color2), weight1, weight2, include_alpha);
+	case color_type::HCY:
+		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_hcy(color1), color_manipulation::color_converter::to_hcy(color2), weight1, weight2, include_alpha);
 	case color_type::XYZ:
 		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight1, weight2, include_alpha);
 	case color_type::XYY:
@@ -221,12 +225,20 @@ color_space::color_base * color_manipulation::color_calculation::mix(color_space
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_grey_deep(color1), color_manipulation::color_converter::to_grey_deep(color2), weight, include_alpha);
 	case color_type::CMYK:
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_cmyk(color1), color_manipulation::color_converter::to_cmyk(color2), weight, include_alpha);
+	case color_type::HSI:
+		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_hsi(color1), color_manipulation::color_converter::to_hsi(color2), weight, include_alpha);
 	case color_type::HSV:
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight, include_alpha);
 	case color_type::HSL:
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_hsl(color1), color_manipulation::color_converter::to_hsl(color2), weight, include_alpha);
+	case color_type::HCY:
+		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_hcy(color1), color_manipulation::color_converter::to_hcy(color2), weight, include_alpha);
 	case color_type::XYZ:
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight, include_alpha);
+	case color_type::XYY:
+		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_xyy(color1), color_manipulation::color_converter::to_xyy(color2), weight, include_alpha);
+	case color_type::CIELUV:
+		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_cieluv(color1), color_manipulation::color_converter::to_cieluv(color2), weight, include_alpha);
 	case color_type::LAB:
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_lab(color1), color_manipulation::color_converter::to_lab(color2), weight, include_alpha);
 	case color_type::LCH_AB:
@@ -357,12 +369,20 @@ color_space::color_base * color_manipulation::color_calculation::subtract(color_
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_grey_deep(color1), color_manipulation::color_converter::to_grey_deep(color2), weight, include_alpha);
 	case color_type::CMYK:
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_cmyk(color1), color_manipulation::color_converter::to_cmyk(color2), weight, include_alpha);
+	case color_type::HSI:
+		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsi(color1), color_manipulation::color_converter::to_hsi(color2), weight, include_alpha);
 	case color_type::HSV:
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight, include_alpha);
 	case color_type::HSL:
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsl(color1), color_manipulation::color_converter::to_hsl(color2), weight, include_alpha);
+	case color_type::HCY:
+		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hcy(color1), color_manipulation::color_converter::to_hcy(color2), weight, include_alpha);
 	case color_type::XYZ:
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight, include_alpha);
+	case color_type::XYY:
+		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyy(color1), color_manipulation::color_converter::to_xyy(color2), weight, include_alpha);
+	case color_type::CIELUV:
+		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_cieluv(color1), color_manipulation::color_converter::to_cieluv(color2), weight, include_alpha);
 	case color_type::LAB:
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_lab(color1), color_manipulation::color_converter::to_lab(color2), weight, include_alpha);
 	case color_type::LCH_AB:
-- 
2.43.0


From 75b7f22cecd4f4ec02e45d55de81d69c7d6fcf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:02 +0000
Subject: [PATCH 35/46] fix: euclidean_distance honours the requested
 calculation space

---
 ColorMagic/manipulation/color_distance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_distance.cpp b/ColorMagic/manipulation/color_distance.cpp
index d17a8b1..b7a5a9c 100644
--- a/ColorMagic/manipulation/color_distance.cpp
+++ b/ColorMagic/manipulation/color_distance.cpp
@@ -39,7 +39,7 @@ float color_manipulation::color_distance::euclidean_distance(color_space::color_
 {
 	if (color1 == color2) return 0.f; // both colors have same type and are equal
 
-	return sqrtf(euclidean_distance_squared(color1, color2));
+	return sqrtf(euclidean_distance_squared(color1, color2, calculation_space));
 }
 
 float color_manipulation::color_distance::euclidean_distance_weighted(color_space::color_base * color1, color_space::color_base * color2)
-- 
2.43.0


From 273f84089a6e36c35011422deb6d8b02b854554a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 36/46] fix: distance functions compare the converted colors by
 value, not by pointer

---
 ColorMagic/manipulation/color_distance.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ColorMagic/manipulation/color_distance.cpp b/ColorMagic/manipulation/color_distance.cpp
index b7a5a9c..48f7342 100644
--- a/ColorMagic/manipulation/color_distance.cpp
+++ b/ColorMagic/manipulation/color_distance.cpp
@@ -12,7 +12,7 @@ float color_manipulation::color_distance::euclidean_distance_squared(color_space
 		auto color1_cieluv = color_manipulation::color_converter::to_cieluv(color1);
 		auto color2_cieluv = color_manipulation::color_converter::to_cieluv(color2);
 
-		if (color1_cieluv == color2_cieluv) return 0.f; // after conversion to same color space both colors are equal
+		if (*color1_cieluv == *color2_cieluv) return 0.f; // after conversion to same color space both colors are equal
 
 		for (std::vector<float>::size_type i = 0; i < color1_cieluv->get_component_vector().size(); ++i)
 		{
@@ -24,7 +24,7 @@ float color_manipulation::color_distance::euclidean_distance_squared(color_space
 		auto color1_rgb_d = color_manipulation::color_converter::to_rgb_deep(color1);
 		auto color2_rgb_d = color_manipulation::color_converter::to_rgb_deep(color2);
 
-		if (color1_rgb_d == color2_rgb_d) return 0.f; // after conversion to same color space both colors are equal
+		if (*color1_rgb_d == *color2_rgb_d) return 0.f; // after conversion to same color space both colors are equal
 
 		for (std::vector<float>::size_type i = 0; i < color1_rgb_d->get_component_vector().size(); ++i)
 		{
@@ -49,7 +49,7 @@ float color_manipulation::color_distance::euclidean_distance_weighted(color_spac
 	auto color1_rgb_d = color_manipulation::color_converter::to_rgb_deep(color1);
 	auto color2_rgb_d = color_manipulation::color_converter::to_rgb_deep(color2);
 
-	if (color1_rgb_d == color2_rgb_d) return 0.f; // after conversion to same color space both colors are equal
+	if (*color1_rgb_d == *color2_rgb_d) return 0.f; // after conversion to same color space both colors are equal
 
 	// Equation source: https://www.compuphase.com/cmetric.htm
 	auto avg_r = ((color1_rgb_d->red() + color2_rgb_d->red()) / 2.f) * 255.f;
@@ -68,7 +68,7 @@ float color_manipulation::color_distance::cielab_delta_e_cie76(color_space::colo
 	auto color1_lab = color_manipulation::color_converter::to_lab(color1);
 	auto color2_lab = color_manipulation::color_converter::to_lab(color2);
 
-	if (color1_lab == color2_lab) return 0.f; // after conversion to same color space both colors are equal
+	if (*color1_lab == *color2_lab) return 0.f; // after conversion to same color space both colors are equal
 
 	float squared_distance = 0.f;
 	for (std::vector<float>::size_type i = 0; i < color1_lab->get_component_vector().size(); ++i)
@@ -87,7 +87,7 @@ float color_manipulation::color_distance::cielab_delta_e_cie94(color_space::colo
 	auto color1_lab = color_manipulation::color_converter::to_lab(color1);
 	auto color2_lab = color_manipulation::color_converter::to_lab(color2);
 
-	if (color1_lab == color2_lab) return 0.f; // after conversion to same color space both colors are equal
+	if (*color1_lab == *color2_lab) return 0.f; // after conversion to same color space both colors are equal
 
 	auto delta_l = color1_lab->luminance() - color2_lab->luminance();
 	auto c1 = sqrtf(powf(color1_lab->a(), 2.f) + powf(color1_lab->b(), 2.f));
@@ -108,7 +108,7 @@ float color_manipulation::color_distance::cielab_delta_e_cie00(color_space::colo
 	auto color1_lab = color_manipulation::color_converter::to_lab(color1);
 	auto color2_lab = color_manipulation::color_converter::to_lab(color2);
 
-	if (color1_lab == color2_lab) return 0.f; // after conversion to same color space both colors are equal
+	if (*color1_lab == *color2_lab) return 0.f; // after conversion to same color space both colors are equal
 
 	auto avg_l = (color1_lab->luminance() + color2_lab->luminance()) / 2.f;
 	auto C1 = sqrtf(powf(color1_lab->a(), 2.f) + powf(color1_lab->b(), 2.f));
@@ -171,7 +171,7 @@ float color_manipulation::color_distance::cmc_delta_e_lc84(color_space::color_ba
 	auto color1_lab = color_manipulation::color_converter::to_lab(color1);
 	auto color2_lab = color_manipulation::color_converter::to_lab(color2);
 
-	if (color1_lab == color2_lab) return 0.f; // after conversion to same color space both colors are equal
+	if (*color1_lab == *color2_lab) return 0.f; // after conversion to same color space both colors are equal
 
 	auto C1 = sqrtf(powf(color1_lab->a(), 2.f) + powf(color1_lab->b(), 2.f));
 	auto C2 = sqrtf(powf(color2_lab->a(), 2.f) + powf(color2_lab->b(), 2.f));
-- 
2.43.0


From 0f976573847b0b0d1f3db6f0a75b3720f66f4b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 37/46] fix: CIE94 and CMC delta E of colors with equal hue is
 not NaN

---
 ColorMagic/manipulation/color_distance.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_distance.cpp b/ColorMagic/manipulation/color_distance.cpp
index 48f7342..a367e7a 100644
--- a/ColorMagic/manipulation/color_distance.cpp
+++ b/ColorMagic/manipulation/color_distance.cpp
@@ -93,7 +93,7 @@ float color_manipulation::color_distance::cielab_delta_e_cie94(color_space::colo
 	auto c1 = sqrtf(powf(color1_lab->a(), 2.f) + powf(color1_lab->b(), 2.f));
 	auto c2 = sqrtf(powf(color2_lab->a(), 2.f) + powf(color2_lab->b(), 2.f));
 	auto delta_c = c1 - c2;
-	auto delta_h = sqrtf(powf(color1_lab->a() - color2_lab->a(), 2.f) + powf(color1_lab->b() - color2_lab->b(), 2.f) - powf(delta_c, 2.f));
+	auto delta_h = sqrtf(fmaxf(powf(color1_lab->a() - color2_lab->a(), 2.f) + powf(color1_lab->b() - color2_lab->b(), 2.f) - powf(delta_c, 2.f), 0.f)); // rounding may turn the difference negative
 	auto sc = 1.f + k1 * c1;
 	auto sh = 1.f + k2 * c1;
 
@@ -178,7 +178,7 @@ float color_manipulation::color_distance::cmc_delta_e_lc84(color_space::color_ba
 	auto delta_C = C1 - C2;
 	auto delta_a = color1_lab->a() - color2_lab->a();
 	auto delta_b = color1_lab->b() - color2_lab->b();
-	auto delta_H = sqrtf(powf(delta_a, 2.f) + powf(delta_b, 2.f) - powf(delta_C, 2.f));
+	auto delta_H = sqrtf(fmaxf(powf(delta_a, 2.f) + powf(delta_b, 2.f) - powf(delta_C, 2.f), 0.f)); // rounding may turn the difference negative
 	auto delta_L = color1_lab->luminance() - color2_lab->luminance();
 
 	auto H = to_deg(atan2(color1_lab->b(), color1_lab->a()));
-- 
2.43.0


From 822d209bc1959a68a34c2f5d3e35c588a9d50ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 38/46] fix: full Bradford and CMCCAT97 adaptation normalize by
 the XYZ luminance of the color

---
 .../manipulation/chromatic_adaptation.cpp     | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/ColorMagic/manipulation/chromatic_adaptation.cpp b/ColorMagic/manipulation/chromatic_adaptation.cpp
index 38720be..f882c3f 100644
--- a/ColorMagic/manipulation/chromatic_adaptation.cpp
+++ b/ColorMagic/manipulation/chromatic_adaptation.cpp
@@ -119,9 +119,11 @@ color_space::color_base * color_manipulation::chromatic_adaptation::bradford_ada
 	// Convert to XYZ space and transform using bradford matrix (incl. normalization)
 	auto tmp_color = color_manipulation::color_converter::to_xyz(color);
 	auto rgb_comp = m_bradford * tmp_color->get_component_vector();
-	rgb_comp[0] /= color->get_component_vector()[1];
-	rgb_comp[1] /= color->get_component_vector()[1];
-	rgb_comp[2] /= color->get_component_vector()[1];
+	auto luminance = tmp_color->get_component_vector()[1];
+	if (luminance == 0.f) luminance = 1.f; // nothing to normalize
+	rgb_comp[0] /= luminance;
+	rgb_comp[1] /= luminance;
+	rgb_comp[2] /= luminance;
 
 	// Create scaled white point vectors (incl. normalization)
 	std::vector<float> source_wp = std::vector<float>();
@@ -140,11 +142,11 @@ color_space::color_base * color_manipulation::chromatic_adaptation::bradford_ada
 	// Adapt color (incl. undo of normalization)
 	auto p = powf(scaled_source_wp[2] / scaled_dest_wp[2], 0.0834f);
 	std::vector<float> tmp_rgb_comp;
-	tmp_rgb_comp.push_back((scaled_dest_wp[0] * (rgb_comp[0] / scaled_source_wp[0])) * color->get_component_vector()[1]);
-	tmp_rgb_comp.push_back((scaled_dest_wp[1] * (rgb_comp[1] / scaled_source_wp[1])) * color->get_component_vector()[1]);
+	tmp_rgb_comp.push_back((scaled_dest_wp[0] * (rgb_comp[0] / scaled_source_wp[0])) * luminance);
+	tmp_rgb_comp.push_back((scaled_dest_wp[1] * (rgb_comp[1] / scaled_source_wp[1])) * luminance);
 
 	float div = rgb_comp[2] / scaled_source_wp[2];
-	tmp_rgb_comp.push_back((scaled_dest_wp[2] * powf(fabsf(div), p)) * color->get_component_vector()[1]); // avoid overflow of float
+	tmp_rgb_comp.push_back((scaled_dest_wp[2] * powf(fabsf(div), p)) * luminance); // avoid overflow of float
 	if (div < 0.f) tmp_rgb_comp[2] *= -1.f;
 
 	auto transformed_components = m_inverted_bradford * tmp_rgb_comp;
@@ -206,9 +208,11 @@ color_space::color_base * color_manipulation::chromatic_adaptation::cmccat97_ada
 	// Convert to XYZ space and transform using cmccat97 matrix (incl. normalization)
 	auto tmp_color = color_manipulation::color_converter::to_xyz(color);
 	auto rgb_comp = m_cmccat97 * tmp_color->get_component_vector();
-	rgb_comp[0] /= color->get_component_vector()[1];
-	rgb_comp[1] /= color->get_component_vector()[1];
-	rgb_comp[2] /= color->get_component_vector()[1];
+	auto luminance = tmp_color->get_component_vector()[1];
+	if (luminance == 0.f) luminance = 1.f; // nothing to normalize
+	rgb_comp[0] /= luminance;
+	rgb_comp[1] /= luminance;
+	rgb_comp[2] /= luminance;
 
 	// Create scaled white point vectors (incl. normalization)
 	std::vector<float> source_wp = std::vector<float>();
@@ -232,9 +236,9 @@ color_space::color_base * color_manipulation::chromatic_adaptation::cmccat97_ada
 	// Adapt color (incl. undo of normalization)
 	auto p = powf(scaled_source_wp[2] / scaled_dest_wp[2], 0.0834f);
 	std::vector<float> rgbc;
-	rgbc.push_back(color->get_component_vector()[1] * (rgb_comp[0] * (d * (scaled_dest_wp[0] / scaled_source_wp[0]) + 1.f - d)));
-	rgbc.push_back(color->get_component_vector()[1] * (rgb_comp[1] * (d * (scaled_dest_wp[1] / scaled_source_wp[1]) + 1.f - d)));
-	rgbc.push_back(color->get_component_vector()[1] * (powf(fabsf(rgb_comp[2]), p) * (d * (scaled_dest_wp[2] / powf(scaled_source_wp[2], p)) + 1.f - d)));
+	rgbc.push_back(luminance * (rgb_comp[0] * (d * (scaled_dest_wp[0] / scaled_source_wp[0]) + 1.f - d)));
+	rgbc.push_back(luminance * (rgb_comp[1] * (d * (scaled_dest_wp[1] / scaled_source_wp[1]) + 1.f - d)));
+	rgbc.push_back(luminance * (powf(fabsf(rgb_comp[2]), p) * (d * (scaled_dest_wp[2] / powf(scaled_source_wp[2], p)) + 1.f - d)));
 
 	if (rgb_comp[2] < 0.f) rgbc[2] *= -1.f;
 
-- 
2.43.0


From 145d5ae3abcc9fd1d417d9e951eed3c345117b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 39/46] fix: matrix row and column predicates reject negative
 indices

---
 ColorMagic/utils/matrix.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index 17e9859..d515e37 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -564,7 +564,7 @@ public:
 	//! Check if all values in the given row are 0.
 	bool is_row_null(int row_index)
 	{
-		if (row_index >= m_rows) return false;
+		if (row_index < 0 || row_index >= m_rows) return false;
 
 		for (int i = 0; i < m_columns; ++i)
 		{
@@ -576,7 +576,7 @@ public:
 	//! Check if all values in the given column are 0.
 	bool is_column_null(int col_index)
 	{
-		if (col_index >= m_columns) return false;
+		if (col_index < 0 || col_index >= m_columns) return false;
 
 		for (int i = 0; i < m_rows; ++i)
 		{
@@ -588,7 +588,7 @@ public:
 	//! Check if all values of both rows are equal.
 	bool are_rows_equal(int row1, int row2)
 	{
-		if (row1 >= m_rows || row2 >= m_rows) return false;
+		if (row1 < 0 || row2 < 0 || row1 >= m_rows || row2 >= m_rows) return false;
 
 		for (int i = 0; i < m_columns; ++i)
 		{
@@ -600,7 +600,7 @@ public:
 	//! Check if all values of both columns are equal.
 	bool are_columns_equal(int col1, int col2)
 	{
-		if (col1 >= m_columns || col2 >= m_columns) return false;
+		if (col1 < 0 || col2 < 0 || col1 >= m_columns || col2 >= m_columns) return false;
 
 		for (int i = 0; i < m_rows; ++i)
 		{
-- 
2.43.0


From 2a435a34b12005d63c2fe59fe538499fe050a839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 40/46] fix: matrix resize rejects negative sizes before
 touching the matrix

---
 ColorMagic/utils/matrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index d515e37..4467c83 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -536,6 +536,7 @@ public:
 	matrix<T>& resize(int new_row_count, int new_col_count, T fill_value = 0)
 	{
 		// resize the matrix.
+		if (new_row_count < 0 || new_col_count < 0) throw std::invalid_argument("Matrix: the size of a matrix can not be negative.");
 		m_values.resize(new_row_count);
 		for (int i = 0; i < new_row_count; ++i)
 		{
-- 
2.43.0


From 695f211e453c520339431d6b099236dd975a75a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 41/46] fix: soft light is continuous at mid grey: the light
 half interpolates with 1-(s-0.5) (C14)

---
 ColorMagic/manipulation/color_blend.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_blend.h b/ColorMagic/manipulation/color_blend.h
index 2a12731..addd870 100644
--- a/ColorMagic/manipulation/color_blend.h
+++ b/ColorMagic/manipulation/color_blend.h
@@ -719,7 +719,7 @@ namespace color_manipulation
 		static float soft_light_func(float s, float d)
 		{
 			if (s <= 0.5f) return d * (s + 0.5f);
-			else return 1.f - (1.f - d) * (1.f * (s - 0.5f));
+			else return 1.f - (1.f - d) * (1.f - (s - 0.5f));
 		}
 
 		static float vivid_light_func(float s, float d)
-- 
2.43.0


From 207e4a31f79738024c2184b1f4f3f4adff0bfbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 42/46] fix: removing a gamma curve part finds it in the
 curve's own list (callers only have iterators into copies)

---
 ColorMagic/spaces/gamma.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/spaces/gamma.h b/ColorMagic/spaces/gamma.h
index 96b7ad1..84e1483 100644
--- a/ColorMagic/spaces/gamma.h
+++ b/ColorMagic/spaces/gamma.h
@@ -288,7 +288,10 @@ namespace color_space
 		//! Remove the given gamma function from the list of default gamma parts
 		bool remove_gamma_curve_part(std::vector<gamma_part*>::iterator position)
 		{
-			m_gamma_curve_parts.erase(position);
+			// the lists handed out are copies, so the iterator never belongs to the list kept here
+			auto part = std::find(m_gamma_curve_parts.begin(), m_gamma_curve_parts.end(), *position);
+			if (part == m_gamma_curve_parts.end()) return false;
+			m_gamma_curve_parts.erase(part);
 			return true;
 		}
 
@@ -312,7 +315,10 @@ namespace color_space
 		//! Remove the given gamma function from the list of inverse gamma parts
 		bool remove_inverse_gamma_curve_part(std::vector<gamma_part*>::iterator position)
 		{
-			m_inverse_gamma_curve_parts.erase(position);
+			// the lists handed out are copies, so the iterator never belongs to the list kept here
+			auto part = std::find(m_inverse_gamma_curve_parts.begin(), m_inverse_gamma_curve_parts.end(), *position);
+			if (part == m_inverse_gamma_curve_parts.end()) return false;
+			m_inverse_gamma_curve_parts.erase(part);
 			return true;
 		}
 
-- 
2.43.0


From d7d408f2d25fe2a7dad289e9f147393f375b44d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 43/46] fix: Luv to XYZ no longer divides by u' (Z was NaN,
 i.e. clamped to 100, where u' is 0)

---
 ColorMagic/manipulation/color_converter.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index c278c14..129b3e1 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -1095,13 +1095,11 @@ color_space::xyz* color_manipulation::color_converter::cieluv_to_xyz(color_space
 			3.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_z());
 
 	auto Y = color->L() > 903.3f* 0.008856f ? powf((color->L() + 16.f) / 116.f, 3.f) : color->L() / 903.3f;
-	auto a = 1.f / 3.f* ((52.f* color->L() / (color->u() + 13.f* color->L()* u_temp)) - 1.f);
-	auto b = -5.f* Y;
-	auto c = -1.f / 3.f;
-	auto d = Y * ((39.f* color->L() / (color->v() + 13.f* color->L()* v_temp)) - 5.f);
+	auto u_prime = color->u() / (13.f* color->L()) + u_temp;
+	auto v_prime = color->v() / (13.f* color->L()) + v_temp;
 
-	auto X = (d - b) / (a - c);
-	auto Z = X * a + b;
+	auto X = Y * 9.f* u_prime / (4.f* v_prime);
+	auto Z = Y * (12.f - 3.f* u_prime - 20.f* v_prime) / (4.f* v_prime);
 	return new color_space::xyz(X, Y, Z, color->alpha(), color->get_rgb_color_space());
 }
 
-- 
2.43.0


From d18b9ccdd59e0ad2daf33045a55a29bad840d8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:40 +0000
Subject: [PATCH 44/46] fix: vivid light burns below and dodges above mid grey
 (the halves were swapped, and jumped at 0.5)

---
 ColorMagic/manipulation/color_blend.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ColorMagic/manipulation/color_blend.h b/ColorMagic/manipulation/color_blend.h
index addd870..e3c69a6 100644
--- a/ColorMagic/manipulation/color_blend.h
+++ b/ColorMagic/manipulation/color_blend.h
@@ -726,15 +726,13 @@ namespace color_manipulation
 		{
 			if (s <= 0.5f)
 			{
-				if (d == 0.f) return 0.f;
-				else if (s == 0.5f) return 1.f;
-				else return d / (1.f - 2.f * s);
+				if (d == 1.f) return 1.f;
+				else if (s == 0.f) return 0.f;
+				else return 1.f - fminf(1.f, (1.f - d) / (2.f * s));
 			}
 			else
 			{
-				if (d == 1.f) return 1.f;
-				else if (s == 1.f) return 0.f;
-				else return 1.f - (1.f - d) / (2.f * (s - 0.5f));
+				return color_dodge_func(2.f * (s - 0.5f), d);
 			}
 		}
 
-- 
2.43.0


From a9b8172de660454c845af531ea1b8e9d709733d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:11 +0000
Subject: [PATCH 45/46] fix: Luv to XYZ scales the luminance by the white
 point, as the way from XYZ divides by it

---
 ColorMagic/manipulation/color_converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index 129b3e1..2e294e3 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -1094,7 +1094,7 @@ color_space::xyz* color_manipulation::color_converter::cieluv_to_xyz(color_space
 			15.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() +
 			3.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_z());
 
-	auto Y = color->L() > 903.3f* 0.008856f ? powf((color->L() + 16.f) / 116.f, 3.f) : color->L() / 903.3f;
+	auto Y = color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() * (color->L() > 903.3f* 0.008856f ? powf((color->L() + 16.f) / 116.f, 3.f) : color->L() / 903.3f);
 	auto u_prime = color->u() / (13.f* color->L()) + u_temp;
 	auto v_prime = color->v() / (13.f* color->L()) + v_temp;
 
-- 
2.43.0


From 30b59a058ff0706c957d410d01096fb5cff5af47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:01 +0000
Subject: [PATCH 46/46] fix: the inverse of a matrix divides by the determinant
 in the element type (single precision made the inverse of double matrices
 inexact, and zero or infinite for large and small determinants)

---
 ColorMagic/utils/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index 4467c83..d4a8538 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -477,7 +477,7 @@ public:
 		{
 			for (int j = 0; j < m_rows; ++j)
 			{
-				inverse(i, j) = adj(i, j) / ((float)det);
+				inverse(i, j) = adj(i, j) / det;
 			}
 		}
 
-- 
2.43.0

