"""R01/R02: BasicSetting"""
MC = 'CONSTANTS Thread = {{0, 1, 2}} Mode = "{}" MaxVal = {}\nSPECIFICATION SSpec\nINVARIANTS OneWriter RealTimeNeverWaits\nPROPERTIES Stable Publishes\nCHECK_DEADLOCK TRUE\n'
TR = 'CONSTANTS Thread = {{0, 1, 2}} Mode = "{}" MaxVal = 100\nSPECIFICATION TraceSpec\nCONSTRAINT TraceInv\nCHECK_DEADLOCK FALSE\n'


def mk(mode):
    def f(c):
        c.model('Setting', MC.format(mode, 3 if c.thorough else 2))
        b = c.build('setting.cpp')
        rec = c.run_checked(b, [f'what={mode}'], what='setting')
        c.validate('SettingTrace', TR.format(mode), rec, minimum=500, what='setting')
    return f


CHECKS = {'R01': mk('nrt'), 'R02': mk('rt')}
