------------------------------- MODULE CDTTab -------------------------------
EXTENDS Integers, Sequences
\* The discrete Gaussian of fractional centre f / 1000 and deviation s / 10: P(X = -20..20) in units of 10^-5.
CDTRows == <<
  <<0, 10, <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 13, 443, 5399, 24197, 39894, 24197, 5399, 443, 13, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<0, 15, <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 9, 103, 760, 3599, 10934, 21297, 26596, 21297, 10934, 3599, 760, 103, 9, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<0, 32, <<0, 0, 0, 0, 0, 0, 1, 3, 11, 34, 94, 239, 548, 1139, 2150, 3678, 5708, 8034, 10255, 11873, 12467, 11873, 10255, 8034, 5708, 3678, 2150, 1139, 548, 239, 94, 34, 11, 3, 1, 0, 0, 0, 0, 0, 0>>>>,
  <<125, 10, <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 8, 302, 4172, 21188, 39584, 27205, 6879, 640, 22, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<125, 15, <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 78, 606, 3036, 9750, 20076, 26504, 22435, 12177, 4237, 946, 135, 12, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<125, 32, <<0, 0, 0, 0, 0, 0, 1, 3, 10, 30, 84, 214, 496, 1045, 1996, 3458, 5432, 7739, 10000, 11720, 12457, 12009, 10500, 8327, 5989, 3907, 2311, 1240, 603, 266, 107, 39, 13, 4, 1, 0, 0, 0, 0, 0, 0>>>>,
  <<250, 10, <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5, 203, 3174, 18265, 38667, 30114, 8628, 909, 35, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<250, 15, <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5, 58, 480, 2544, 8635, 18794, 26229, 23471, 13467, 4954, 1169, 177, 17, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<250, 32, <<0, 0, 0, 0, 0, 0, 1, 2, 8, 26, 74, 191, 449, 957, 1851, 3245, 5161, 7443, 9737, 11551, 12429, 12129, 10735, 8618, 6274, 4143, 2481, 1348, 664, 297, 120, 44, 15, 4, 1, 0, 0, 0, 0, 0, 0>>>>,
  <<500, 10, <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 87, 1753, 12952, 35207, 35207, 12952, 1753, 87, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<500, 15, <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 32, 295, 1748, 6632, 16131, 25159, 25159, 16131, 6632, 1748, 295, 32, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<500, 32, <<0, 0, 0, 0, 0, 0, 0, 2, 6, 20, 57, 152, 366, 800, 1584, 2846, 4638, 6855, 9188, 11170, 12316, 12316, 11170, 9188, 6855, 4638, 2846, 1584, 800, 366, 152, 57, 20, 6, 2, 0, 0, 0, 0, 0, 0>>>>,
  <<875, 10, <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 22, 640, 6879, 27205, 39584, 21188, 4172, 302, 8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<875, 15, <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 12, 135, 946, 4237, 12177, 22435, 26504, 20076, 9750, 3036, 606, 78, 6, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>,
  <<875, 32, <<0, 0, 0, 0, 0, 0, 0, 1, 4, 13, 39, 107, 266, 603, 1240, 2311, 3907, 5989, 8327, 10500, 12009, 12457, 11720, 10000, 7739, 5432, 3458, 1996, 1045, 496, 214, 84, 30, 10, 3, 1, 0, 0, 0, 0, 0>>>> >>
CDTP(f, s) == LET i == CHOOSE i \in 1..Len(CDTRows) : CDTRows[i][1] = f /\ CDTRows[i][2] = s IN CDTRows[i][3]
=============================================================================
