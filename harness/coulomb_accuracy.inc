{2.89e-15,3.11e-15,3.33e-15,3.55e-15,2.44e-15,2.78e-15,3.77e-15,2.89e-15,2.66e-15,3.44e-15,4e-15,2.66e-15,2.66e-15,3.55e-15,3.55e-15,3.11e-15,3.11e-15,3.11e-15,2.89e-15,3.33e-15,3.11e-15,2.44e-15,3.55e-15,3.22e-15,2.89e-15,2.89e-15,4e-15,3.33e-15,3.11e-15,3.77e-15,3.77e-15,4.66e-15,2.44e-15,2.78e-15,2.44e-15,4.22e-15,3.55e-15,2.89e-15,3e-15,3.33e-15,3.44e-15,3.55e-15,2.33e-15,2.44e-15,2.66e-15,2.23e-13,1.74e-13,3.84e-14,7.33e-15,5.11e-15,4.55e-15,4e-15,5.22e-15,6.22e-15,5.55e-15,6.74e-15,8.66e-15,7.55e-15,1.02e-14,1.13e-14},
{4.68e-06,4.63e-06,4.6e-06,4.56e-06,4.55e-06,4.51e-06,4.48e-06,4.46e-06,4.44e-06,4.39e-06,4.34e-06,4.29e-06,4.23e-06,4.09e-06,3.93e-06,3.74e-06,3.53e-06,4.26e-06,5.39e-06,6.33e-06,7.49e-06,7.67e-06,7.54e-06,8.7e-06,1.23e-05,1.39e-05,1.4e-05,1.5e-05,1.5e-05,1.26e-05,1.07e-05,6.16e-06,1.35e-05,1.32e-05,8.62e-06,1.19e-05,1.19e-05,5.74e-12,5.74e-12,5.74e-12,5.74e-12,5.74e-12,5.74e-12,5.74e-12,5.74e-12,5.74e-12,5.74e-12,5.74e-12,5.74e-12,5.74e-12,5.74e-12,5.74e-12,5.76e-12,5.76e-12,5.76e-12,5.76e-12,5.75e-12,5.76e-12,5.77e-12,5.77e-12},
{9.33e-06,8.33e-06,7.66e-06,7.2e-06,6.83e-06,6.33e-06,5.99e-06,5.75e-06,5.55e-06,5.27e-06,5.07e-06,4.9e-06,4.76e-06,4.51e-06,4.27e-06,4.03e-06,3.77e-06,4.26e-06,5.39e-06,6.33e-06,7.5e-06,7.69e-06,7.57e-06,8.67e-06,1.23e-05,1.39e-05,1.39e-05,1.5e-05,1.5e-05,1.26e-05,1.07e-05,6.2e-06,1.35e-05,1.33e-05,8.66e-06,1.2e-05,1.19e-05,7.94e-09,1.11e-10,1.11e-10,1.11e-10,1.11e-10,1.11e-10,1.11e-10,1.11e-10,1.11e-10,1.11e-10,1.11e-10,1.11e-10,1.11e-10,1.11e-10,1.11e-10,1.11e-10,1.11e-10,1.11e-10,1.11e-10,1.11e-10,1.11e-10,1.11e-10,1.11e-10},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{1.42e-05,1.22e-05,1.09e-05,9.95e-06,9.25e-06,8.26e-06,7.57e-06,7.09e-06,6.73e-06,6.21e-06,5.83e-06,5.55e-06,5.32e-06,4.94e-06,4.62e-06,4.33e-06,4.03e-06,4.25e-06,5.39e-06,6.33e-06,7.51e-06,7.71e-06,7.61e-06,8.63e-06,1.23e-05,1.39e-05,1.39e-05,1.5e-05,1.5e-05,1.26e-05,1.07e-05,6.24e-06,1.35e-05,1.33e-05,8.69e-06,1.2e-05,1.2e-05,6.31e-08,2.22e-10,2.22e-10,2.22e-10,2.22e-10,2.22e-10,2.22e-10,2.22e-10,2.22e-10,2.22e-10,2.22e-10,2.22e-10,2.22e-10,2.22e-10,2.22e-10,2.22e-10,2.22e-10,2.22e-10,2.22e-10,2.22e-10,2.22e-10,2.22e-10,2.22e-10},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{2.4e-05,2e-05,1.74e-05,1.55e-05,1.41e-05,1.21e-05,1.08e-05,9.79e-06,9.08e-06,8.06e-06,7.35e-06,6.84e-06,6.43e-06,5.82e-06,5.34e-06,4.93e-06,4.54e-06,4.24e-06,5.38e-06,6.33e-06,7.53e-06,7.76e-06,7.66e-06,8.57e-06,1.22e-05,1.39e-05,1.39e-05,1.5e-05,1.5e-05,1.26e-05,1.07e-05,6.29e-06,1.35e-05,1.34e-05,8.73e-06,1.2e-05,1.2e-05,1.31e-07,4.45e-10,4.45e-10,4.45e-10,4.45e-10,4.45e-10,4.45e-10,4.45e-10,4.45e-10,4.45e-10,4.45e-10,4.45e-10,4.45e-10,4.45e-10,4.45e-10,4.45e-10,4.45e-10,4.45e-10,4.45e-10,4.45e-10,4.45e-10,4.45e-10,4.45e-10},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{4.36e-05,3.56e-05,3.04e-05,2.66e-05,2.38e-05,1.98e-05,1.71e-05,1.52e-05,1.38e-05,1.18e-05,1.04e-05,9.42e-06,8.67e-06,7.56e-06,6.75e-06,6.11e-06,5.56e-06,4.62e-06,5.37e-06,6.33e-06,7.57e-06,7.83e-06,7.76e-06,8.42e-06,1.21e-05,1.38e-05,1.38e-05,1.5e-05,1.5e-05,1.26e-05,1.08e-05,6.41e-06,1.36e-05,1.35e-05,8.82e-06,1.21e-05,1.21e-05,3.87e-07,8.89e-10,8.89e-10,8.89e-10,8.89e-10,8.89e-10,8.89e-10,8.89e-10,8.89e-10,8.89e-10,8.89e-10,8.89e-10,8.89e-10,8.89e-10,8.89e-10,8.89e-10,8.89e-10,8.89e-10,8.89e-10,8.89e-10,8.89e-10,8.89e-10,8.89e-10},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{8.28e-05,6.68e-05,5.63e-05,4.87e-05,4.3e-05,3.51e-05,2.98e-05,2.6e-05,2.32e-05,1.92e-05,1.65e-05,1.46e-05,1.31e-05,1.1e-05,9.59e-06,8.49e-06,7.61e-06,6.21e-06,5.33e-06,6.3e-06,7.61e-06,7.97e-06,7.94e-06,8.13e-06,1.19e-05,1.37e-05,1.37e-05,1.49e-05,1.49e-05,1.27e-05,1.08e-05,6.62e-06,1.37e-05,1.36e-05,8.98e-06,1.22e-05,1.23e-05,7.51e-07,1.78e-09,1.78e-09,1.78e-09,1.78e-09,1.78e-09,1.78e-09,1.78e-09,1.78e-09,1.78e-09,1.78e-09,1.78e-09,1.78e-09,1.78e-09,1.78e-09,1.78e-09,1.78e-09,1.78e-09,1.78e-09,1.78e-09,1.78e-09,1.78e-09,1.78e-09},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{0.000161,0.000129,0.000108,9.31e-05,8.17e-05,6.58e-05,5.53e-05,4.77e-05,4.2e-05,3.4e-05,2.87e-05,2.49e-05,2.21e-05,1.8e-05,1.53e-05,1.32e-05,1.17e-05,9.35e-06,7.61e-06,6.24e-06,7.61e-06,8.17e-06,8.17e-06,7.71e-06,1.15e-05,1.34e-05,1.35e-05,1.48e-05,1.49e-05,1.28e-05,1.09e-05,6.97e-06,1.38e-05,1.39e-05,9.28e-06,1.22e-05,1.26e-05,1.41e-06,3.55e-09,3.55e-09,3.55e-09,3.55e-09,3.55e-09,3.55e-09,3.55e-09,3.55e-09,3.55e-09,3.55e-09,3.55e-09,3.55e-09,3.55e-09,3.55e-09,3.55e-09,3.55e-09,3.55e-09,3.55e-09,3.55e-09,3.55e-09,3.55e-09,3.55e-09},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{0.000317,0.000254,0.000212,0.000181,0.000159,0.000127,0.000106,9.09e-05,7.96e-05,6.38e-05,5.31e-05,4.56e-05,3.98e-05,3.19e-05,2.65e-05,2.27e-05,1.98e-05,1.56e-05,1.27e-05,1.05e-05,8.64e-06,8.23e-06,8.34e-06,8.26e-06,1.06e-05,1.28e-05,1.32e-05,1.45e-05,1.48e-05,1.34e-05,1.09e-05,7.41e-06,1.38e-05,1.4e-05,9.97e-06,1.22e-05,1.32e-05,2.42e-06,7.04e-09,7.04e-09,7.04e-09,7.04e-09,7.04e-09,7.04e-09,7.04e-09,7.04e-09,7.04e-09,7.04e-09,7.04e-09,7.04e-09,7.04e-09,7.04e-09,7.04e-09,7.04e-09,7.04e-09,7.04e-09,7.04e-09,7.04e-09,7.04e-09,7.04e-09},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{0.00063,0.000504,0.000419,0.000359,0.000314,0.00025,0.000208,0.000177,0.000155,0.000123,0.000102,8.7e-05,7.56e-05,5.99e-05,4.93e-05,4.18e-05,3.61e-05,2.82e-05,2.29e-05,1.9e-05,1.61e-05,1.17e-05,8.42e-06,8.31e-06,8.51e-06,1.14e-05,1.24e-05,1.39e-05,1.45e-05,1.37e-05,1.1e-05,7.57e-06,1.35e-05,1.41e-05,1.22e-05,1.16e-05,1.39e-05,3.68e-06,1.36e-08,1.36e-08,1.36e-08,1.36e-08,1.36e-08,1.36e-08,1.36e-08,1.36e-08,1.36e-08,1.36e-08,1.36e-08,1.36e-08,1.36e-08,1.36e-08,1.36e-08,1.36e-08,1.36e-08,1.36e-08,1.36e-08,1.36e-08,1.36e-08,1.36e-08},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{0.00126,0.001,0.000836,0.000715,0.000624,0.000497,0.000413,0.000352,0.000307,0.000244,0.000202,0.000171,0.000149,0.000117,9.62e-05,8.13e-05,7.01e-05,5.47e-05,4.44e-05,3.72e-05,3.18e-05,2.44e-05,1.94e-05,1.58e-05,1.29e-05,8.34e-06,9.53e-06,1.19e-05,1.36e-05,1.34e-05,1.1e-05,8.09e-06,1.07e-05,1.41e-05,1.34e-05,7.84e-06,1.4e-05,1.07e-05,2.38e-08,2.38e-08,2.38e-08,2.38e-08,2.38e-08,2.38e-08,2.38e-08,2.38e-08,2.38e-08,2.38e-08,2.38e-08,2.38e-08,2.38e-08,2.38e-08,2.38e-08,2.38e-08,2.38e-08,2.38e-08,2.38e-08,2.38e-08,2.38e-08,2.38e-08},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{0.00251,0.00201,0.00167,0.00143,0.00124,0.000992,0.000824,0.000704,0.000612,0.000487,0.000402,0.000343,0.000298,0.000236,0.000194,0.000165,0.000143,0.000112,9.2e-05,7.77e-05,6.72e-05,5.27e-05,4.33e-05,3.68e-05,3.2e-05,2.56e-05,2.15e-05,1.85e-05,1.61e-05,1.14e-05,9.85e-06,8.07e-06,5.39e-06,1.12e-05,1.2e-05,8.99e-06,1.28e-05,1.15e-05,2.88e-08,2.87e-08,2.87e-08,2.87e-08,2.87e-08,2.87e-08,2.87e-08,2.87e-08,2.87e-08,2.87e-08,2.87e-08,2.87e-08,2.87e-08,2.87e-08,2.87e-08,2.87e-08,2.87e-08,2.87e-08,2.87e-08,2.87e-08,2.87e-08,2.87e-08},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{0.00499,0.00398,0.0033,0.00282,0.00246,0.00196,0.00162,0.00138,0.0012,0.000953,0.000788,0.00067,0.000581,0.000459,0.000377,0.00032,0.000277,0.000218,0.000179,0.000151,0.000131,0.000102,8.39e-05,7.08e-05,6.12e-05,4.8e-05,3.94e-05,3.35e-05,2.93e-05,2.37e-05,2.04e-05,1.82e-05,1.62e-05,1.13e-05,1.18e-05,1.2e-05,1.15e-05,1.14e-05,1.09e-05,2.72e-08,2.72e-08,2.72e-08,2.72e-08,2.72e-08,2.72e-08,2.72e-08,2.72e-08,2.72e-08,2.72e-08,2.72e-08,2.72e-08,2.72e-08,2.72e-08,2.72e-08,2.72e-08,2.72e-08,2.72e-08,2.72e-08,2.72e-08,2.72e-08},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{0.00985,0.00784,0.0065,0.00554,0.00483,0.00384,0.00317,0.0027,0.00235,0.00186,0.00153,0.0013,0.00113,0.000892,0.000734,0.000623,0.00054,0.000425,0.000349,0.000295,0.000255,0.000199,0.000163,0.000136,0.000117,8.93e-05,7.12e-05,5.83e-05,4.87e-05,3.55e-05,2.69e-05,2.09e-05,1.66e-05,1.24e-05,8.66e-06,1.09e-05,1.12e-05,9.28e-06,1.04e-05,7.16e-06,6.87e-06,7.81e-09,7.81e-09,7.81e-09,7.81e-09,7.81e-09,7.81e-09,7.81e-09,7.81e-09,7.81e-09,7.81e-09,7.81e-09,7.81e-09,7.81e-09,7.81e-09,7.81e-09,7.81e-09,7.81e-09,7.81e-09,7.81e-09},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{0.0124,0.00983,0.00815,0.00695,0.00606,0.0048,0.00397,0.00338,0.00294,0.00233,0.00193,0.00164,0.00142,0.00113,0.000931,0.000792,0.000689,0.000545,0.00045,0.000382,0.000332,0.000261,0.000214,0.000181,0.000156,0.000121,9.71e-05,8.04e-05,6.78e-05,5.03e-05,3.87e-05,3.06e-05,2.47e-05,1.66e-05,1.16e-05,8.42e-06,6.39e-06,4.62e-06,4.33e-06,7.16e-06,7.14e-06,2.36e-09,2.36e-09,2.36e-09,2.36e-09,2.36e-09,2.36e-09,2.36e-09,2.36e-09,2.36e-09,2.36e-09,2.36e-09,2.36e-09,2.36e-09,2.36e-09,2.36e-09,2.36e-09,2.36e-09,2.36e-09,2.36e-09},
{0.0194,0.0154,0.0128,0.0109,0.0095,0.00754,0.00625,0.00532,0.00464,0.00369,0.00306,0.00261,0.00228,0.00182,0.00151,0.00129,0.00113,0.000905,0.000755,0.000648,0.000567,0.000453,0.000376,0.000321,0.00028,0.000221,0.000181,0.000152,0.00013,9.86e-05,7.77e-05,6.27e-05,5.14e-05,3.57e-05,2.55e-05,1.85e-05,1.34e-05,1.05e-05,1.13e-05,1.13e-05,1.46e-05,1.44e-05,1.32e-05,5.08e-06,3.98e-07,1.6e-08,8.09e-09,8.1e-09,8.1e-09,8.1e-09,8.1e-09,8.1e-09,8.1e-09,8.1e-09,8.1e-09,8.1e-09,8.1e-09,8.1e-09,8.1e-09,8.1e-09},
{0.036,0.0287,0.0238,0.0203,0.0178,0.0142,0.0118,0.0101,0.00883,0.00708,0.00592,0.0051,0.00449,0.00363,0.00306,0.00265,0.00234,0.00191,0.00162,0.00141,0.00125,0.00102,0.000865,0.000751,0.000665,0.00054,0.000454,0.000391,0.000342,0.000272,0.000224,0.000188,0.000161,0.000122,9.55e-05,7.64e-05,6.19e-05,4.2e-05,2.9e-05,2.03e-05,1.41e-05,1.14e-05,1.29e-05,1.17e-05,9.76e-06,4.92e-06,5.56e-07,2.76e-08,7.01e-09,7.01e-10,2.91e-10,2.9e-10,2.9e-10,2.9e-10,2.9e-10,2.9e-10,2.9e-10,2.9e-10,2.9e-10,2.9e-10},
{0.038,0.0303,0.0252,0.0215,0.0188,0.015,0.0124,0.0107,0.00935,0.00749,0.00628,0.0054,0.00476,0.00385,0.00325,0.00281,0.00249,0.00203,0.00172,0.00149,0.00132,0.00108,0.000915,0.000794,0.000701,0.000568,0.000476,0.000408,0.000356,0.00028,0.000228,0.00019,0.000161,0.000118,8.96e-05,6.87e-05,5.3e-05,3.1e-05,1.67e-05,6.98e-06,0.00012,0.000126,3.58e-06,1.46e-06,4.97e-06,7.73e-06,1.03e-05,1.16e-05,1.69e-05,2.32e-05,3.19e-05,3.95e-05,5.77e-05,7.79e-05,9.93e-05,0.00012,0.000166,0.000212,0.000261,0.000307},
{0.0748,0.0599,0.05,0.0429,0.0377,0.0303,0.0255,0.022,0.0195,0.0158,0.0134,0.0117,0.0104,0.00855,0.0073,0.0064,0.00572,0.00475,0.00408,0.00358,0.00321,0.00267,0.00229,0.00201,0.00179,0.00148,0.00126,0.00109,0.000965,0.000778,0.000645,0.000546,0.000469,0.000356,0.000276,0.000217,0.000171,0.000104,5.85e-05,2.51e-05,2.63e-05,0.000115,0.000105,8.86e-05,7.27e-05,4.73e-05,8.84e-06,1.13e-05,1.65e-05,2.27e-05,2.95e-05,3.68e-05,5.45e-05,7.47e-05,9.55e-05,0.000116,0.00016,0.000207,0.000253,0.000301},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{0.0939,0.0754,0.0632,0.0544,0.0479,0.0387,0.0326,0.0283,0.0251,0.0205,0.0175,0.0153,0.0136,0.0113,0.00967,0.0085,0.00762,0.00636,0.00548,0.00484,0.00434,0.00362,0.00312,0.00275,0.00246,0.00204,0.00174,0.00152,0.00135,0.00109,0.000908,0.000772,0.000665,0.000507,0.000396,0.000313,0.000248,0.000153,8.61e-05,3.72e-05,1.14e-09,5.24e-10,1.9e-10,2.59e-10,2.3e-09,2.44e-08,4.66e-07,1.17e-05,3.36e-06,3.41e-06,5.52e-06,8.26e-06,1.58e-05,2.59e-05,3.87e-05,5.34e-05,8.53e-05,0.000122,0.00016,0.0002},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
