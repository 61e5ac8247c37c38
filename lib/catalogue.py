"""LISA verification binaries (Kupfer et al. 2018, Tables 1 and 2): label, f_GW / mHz, l / deg, b / deg, d / pc, m_1 / Msun, m_2 / Msun, i / deg, SNR."""
BINARIES = [
    ('HM Cnc', 6.22, 206.9246, 23.3952, 5000.0, 0.55, 0.27, 38.0, 211.1),
    ('V407 Vul', 3.51, 57.7281, 6.4006, 1786.0, 0.8, 0.177, 60.0, 169.7),
    ('ES Cet', 3.22, 168.9684, -65.8632, 1584.0, 0.8, 0.161, 60.0, 154.3),
    ('SDSS J135154.46–064309.0', 2.12, 328.5021, 53.124, 1317.0, 0.8, 0.1, 60.0, 21.8),
    ('AM CVn', 1.94, 140.2343, 78.9382, 299.0, 0.68, 0.125, 43.0, 101.2),
    ('SDSS J190817.07+394036.4', 1.84, 70.6664, 13.9349, 1044.0, 0.8, 0.085, 10.0, 20.3),
    ('HP Lib', 1.81, 325.0561, 32.5467, 276.0, 0.49, 0.048, 26.0, 43.7),
    ('PTF1 J191905.19+481506.2', 1.48, 79.5945, 15.5977, 1338.0, 0.8, 0.066, 60.0, 4.0),
    ('CXOGBS J175107.6–294037', 1.45, 359.9849, -1.4108, 971.0, 0.8, 0.064, 60.0, 4.5),
    ('CR Boo', 1.36, 340.9671, 66.4884, 337.0, 0.67, 0.044, 30.0, 21.9),
    ('V803 Cen', 1.25, 309.3671, 20.7262, 347.0, 0.78, 0.059, 12.0, 26.2),
    ('SDSS J065133.34+284423.4', 2.61, 186.9277, 12.6886, 933.0, 0.247, 0.49, 86.9, 90.1),
    ('SDSS J093506.92+441107.0', 1.68, 176.0796, 47.3376, 645.0, 0.312, 0.75, 60.0, 44.9),
    ('SDSS J163030.58+423305.7', 0.84, 67.076, 43.3604, 1019.0, 0.298, 0.76, 60.0, 4.6),
    ('SDSS J092345.59+302805.0', 0.51, 195.8199, 44.7754, 299.0, 0.275, 0.76, 60.0, 5.6),
    ('CD–30 11223', 0.47, 322.4875, 28.9379, 337.0, 0.54, 0.79, 82.9, 4.9),
]
