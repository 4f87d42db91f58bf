W_(D50_2Degree, 0.9642, 0.8251, 0.3456, 0.3585)
W_(D55_2Degree, 0.9568, 0.9214, 0.3324, 0.3474)
W_(D65_2Degree, 0.9504, 1.0888, 0.3127, 0.3290)
W_(D75_2Degree, 0.9497, 1.2264, 0.2990, 0.3148)
W_(A_2Degree, 1.0985, 0.3558, 0.4475, 0.4074)
W_(B_2Degree, 0.9909, 0.8531, 0.3484, 0.3516)
W_(C_2Degree, 0.9807, 1.1823, 0.3100, 0.3161)
W_(E_2Degree, 1., 1., 0.3333, 0.3333)
W_(F1_2Degree, 0.9283, 1.0366, 0.3130, 0.3372)
W_(F2_2Degree, 0.9918, 0.6739, 0.3720, 0.3751)
W_(F3_2Degree, 1.0375, 0.4986, 0.4090, 0.3943)
W_(F4_2Degree, 1.0914, 0.3881, 0.4401, 0.4033)
W_(F5_2Degree, 0.9087, 0.9872, 0.3137, 0.3453)
W_(F6_2Degree, 0.9730, 0.6019, 0.3778, 0.3883)
W_(F7_2Degree, 0.9504, 1.0875, 0.3128, 0.3291)
W_(F8_2Degree, 0.9641, 0.8233, 0.3458, 0.3587)
W_(F9_2Degree, 1.0036, 0.6786, 0.3741, 0.3728)
W_(F10_2Degree, 0.9617, 0.8171, 0.3460, 0.3598)
W_(F11_2Degree, 1.0096, 0.6437, 0.3805, 0.3768)
W_(F12_2Degree, 1.0804, 0.3922, 0.4369, 0.4044)
W_(D50_10Degree, 0.9672, 0.8142, 0.3477, 0.3595)
W_(D55_10Degree, 0.9579, 0.9092, 0.3341, 0.3487)
W_(D65_10Degree, 0.9481, 1.0730, 0.3138, 0.3310)
W_(D75_10Degree, 0.9441, 1.2064, 0.2996, 0.3174)
W_(A_10Degree, 1.1114, 0.3520, 0.4511, 0.4059)
W_(B_10Degree, 0.9917, 0.84349, 0.3497, 0.3527)
W_(C_10Degree, 0.9728, 1.1614, 0.3103, 0.3190)
W_(E_10Degree, 1., 1., 0.3333, 0.3333)
W_(F1_10Degree, 0.9479, 1.0319, 0.3181, 0.3355)
W_(F2_10Degree, 1.0328, 0.6902, 0.3792, 0.3672)
W_(F3_10Degree, 1.0896, 0.5196, 0.4175, 0.3832)
W_(F4_10Degree, 1.1496, 0.4096, 0.4492, 0.3907)
W_(F5_10Degree, 0.9336, 0.9863, 0.3197, 0.3424)
W_(F6_10Degree, 1.0214, 0.6207, 0.3865, 0.3784)
W_(F7_10Degree, 0.9579, 1.0768, 0.3156, 0.3295)
W_(F8_10Degree, 0.9711, 0.8113, 0.3490, 0.3594)
W_(F9_10Degree, 1.0211, 0.6782, 0.3782, 0.3704)
W_(F10_10Degree, 0.9900, 0.8313, 0.3509, 0.3544)
W_(F11_10Degree, 1.0386, 0.6562, 0.3854, 0.3710)
W_(F12_10Degree, 1.1142, 0.4035, 0.4425, 0.3971)
